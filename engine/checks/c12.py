"""A k-best query returns at most k genuine results, nearest first.

The exhaustive search, the search on block averages, the search inside a group
and the grouped search are flattened.  For each collection of candidates:
the number held never exceeds k (an inductive invariant checked on every path
around every loop: entry, push, push/pop, no change), every candidate put in is
a copy of the series whose distance to the query was just computed (with the
block averages of the same subsequence where those are compared), candidates
computed under a bound are only put in when they came out below it, nothing
fills the collection up with unexamined entries, every return is reached only
with k >= 1, and the result is sorted as a whole in the order of the candidates
after the last change (later only shortened).  The order itself compares
distances outside the tie tolerance.  In the grouped search the distances of
all entries are recomputed against the query before they are ordered.
"""
from gx import api
from gx.kbest import *
from gx.loops import ranges, iter_skips, exits
from gx.order import Order, Unclear, COMPARE

RULE = 'inductive size invariant, pairing of pushed series and distances, sort-after-last-change typestate'
KEEP = [r'^genex::(TimeSeriesSet::getTimeSeries|PAAWrapper::getPAA|tsPAA|getDistanceFromName)\(',
        r'^genex::TimeSeries::(TimeSeries|~TimeSeries|operator=)\(']
BRUTE = SET + '::getKBestMatchesBruteForce'
PAA = 'genex::PAAWrapper::getKBestMatchesPAA'
INTRA = GRP + '::intraGroupKSim'
ROOTS = [r'^%s\(' % x for x in (BRUTE, PAA, INTRA)]


def program(ctx):
    return ctx.prog(plan(ROOTS, KEEP))


def arg_not(s, *no):
    return [a for a in s.argT if a.args[1] not in ('this', 'sret')]


def collectors(ctx):
    p = program(ctx)
    for nm in (BRUTE, PAA, INTRA):
        f = ctx.one(p, nm)
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        short = nm.split('::')[-1]
        vs = sorted(cand_vectors(s), key=lambda t: t.uid)
        vs = [v for v in vs if any(c.short in GROW for _, c in Collector(ctx, s, short, v, None).calls)]
        ctx.require(len(vs) == 1, '%s does not fill exactly one collection of candidates' % nm)
        ks = [a for a in arg_not(s) if a.args[2] == 'i32']
        ctx.require(len(ks) == 1, '%s no longer takes one count' % nm)
        yield nm, Collector(ctx, s, short, vs[0], ks[0])


def source_of(s, addr, i):
    """the call that produced the series at addr (nearest one dominating i)"""
    best = None
    for j in s.fn.instrs():
        c = s.info.get(j.id, {}).get('call')
        if c is None or c.sret is not addr:
            continue
        if s.fn.dominates(j.blk, i.blk) and (best is None or s.fn.dominates(best.blk, j.blk)):
            best = j
    return best


def genuine(ctx, nm, col):
    s = col.s
    query = [a for a in arg_not(s) if a.args[2] == 'ptr'][0]
    calls = {s.vals[i.id]: i for i in s.fn.instrs() if is_dist_call(s, i)}
    ctx.require(calls, '%s computes no distance' % nm)
    for i, src, d in [(i,) + col.pushed(i, c) for i, c in col.pushes()] + col.overwrites():
        w = i.where
        if not ctx.expect(src is not None and d is not None and d in calls, '%s-pushed' % col.what, w,
                          'a candidate is stored whose distance is not the one just computed'):
            continue
        dc = calls[d]
        a = s.info[dc.id]['args']
        ser, qry = a[1], a[0]
        fs = s.facts(i.blk)
        p1 = source_of(s, src, i)
        ctx.require(p1 is not None, 'origin of the stored series in %s not found' % nm)
        c1 = s.info[p1.id]['call']
        ctx.expect(c1.short == SET + '::getTimeSeries', '%s-stored' % col.what, w, 'the series stored is not one of the dataset')
        if ser is src:
            ok = qry is query
        else:
            p2, pq = source_of(s, ser, i), source_of(s, qry, i)
            c2 = s.info[p2.id]['call'] if p2 is not None else None
            cq = s.info[pq.id]['call'] if pq is not None else None
            ok = c2 is not None and cq is not None and c2.short.endswith('::getPAA') and c2.params == c1.params and \
                cq.short.endswith('::tsPAA') and cq.params[0] is query
        ctx.expect(ok, '%s-pair' % col.what, w,
                   'the distance stored with a candidate was computed for another series or another query')
        if a[2] is not INF:
            ctx.expect(all(col.bound_guard(d, a[2], ws) or unbounded(s, a[2], ws) for ws in ways(s, i.blk)), '%s-bounded' % col.what, w,
                       'a candidate computed under a bound is stored although it did not come out below the bound')
        # the distance belongs to the series fetched in this very iteration
        ctx.expect(s.fn.dominates(p1.blk, dc.blk) and p1.blk != dc.blk or p1.blk == dc.blk, '%s-stale' % col.what, w,
                   'the distance was computed before the series was fetched')
        ctx.count('stored candidates')


def unbounded(s, b, fs):
    """the bound is no bound at all under these facts"""
    pr = Prover(s)
    return all(c is INF or pr.absurd(list(gs)) for (c,), gs in split(s, [b], fs))


def sorted_result(ctx, col, r, need_sort=True):
    """content of the collection at return r: size and order"""
    s = col.s
    pr = Prover(s)
    out = s.outstate[r.blk]
    sret = s.argByName['sret']
    cs = split(s, [s.peek(out, sret, 'obj')], s.facts(r.blk))
    ctx.require(cs, 'no way to return')
    for (t,), fs in cs:
        fs = list(fs) + col.hyps
        ctx.expect(pr.le(size_of(s, t), col.k, fs), '%s-too-many' % col.what, r.where,
                   'more than k candidates can be returned')
        if need_sort:
            while t.op == 'vec' and isinstance(t.args[1], tuple) and t.args[1][0] in ('resize', 'erase'):
                t = col.prev(t)
            ok = t.op == 'perm' and t.args[1] in ('std::sort', 'std::stable_sort') or \
                t.op == 'perm' and t.args[1] == 'std::sort_heap' and col.heap_ok(t.args[0], fs, pr)
            ctx.expect(ok, '%s-unsorted' % col.what, r.where, 'the result is changed or returned without being sorted: %s' % t)
        ctx.count('return cases')


def positive_k(ctx, s, what, k):
    pr = Prover(s)
    for r in rets(s.fn):
        for fs in ways(s, r.blk):
            ctx.expect(pr.lt(const(0), k, fs), '%s-k' % what, r.where, 'a result is returned for a k that is not positive')


def run(ctx):
    for nm, col in collectors(ctx):
        s = col.s
        if not col.invariant():
            ctx.bad('%s-size' % col.what, s.fn.where, 'it is not established that at most k candidates are held')
        col.check_ops()
        genuine(ctx, nm, col)
        only_own_exceptions(ctx, s, col.what)
        rs = rets(s.fn)
        ctx.require(rs, '%s never returns' % nm)
        for r in rs:
            sorted_result(ctx, col, r, nm != INTRA)
        if nm != INTRA:
            positive_k(ctx, s, col.what, col.k)

    # ------------------------------------------------------------ grouped search
    p = ctx.prog(plan([r'^%s::getKBestMatches\(' % GSET], [r'^%s::' % GGS, KEEP[1]]))
    f = ctx.one(p, GSET + '::getKBestMatches')
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    a = [x for x in arg_not(s) if x.args[2] == 'i32']
    ctx.require(len(a) == 2, 'the grouped search no longer takes two counts')
    col = Collector(ctx, s, 'grouped', s.argByName['sret'], a[0])
    col.check_ops()
    for r in rets(f):
        sorted_result(ctx, col, r)
    positive_k(ctx, s, 'grouped', a[0])
    only_own_exceptions(ctx, s, 'grouped')
    regroup(ctx)
    order(ctx)
    ctx.require(ctx.counts.get('stored candidates', 0) >= 3, 'fewer stored candidates than expected')


def regroup(ctx):
    """the candidates of the grouped search carry distances computed for themselves"""
    nm = GGS + '::getKBestMatches'
    p = ctx.prog(plan([r'^%s\(' % nm], [r'^%s::' % LGS, r'^%s::' % GRP, r'^genex::generateTraverseOrder\(', KEEP[1]]))
    f = ctx.one(p, nm)
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    V = s.argByName['sret']
    query = [a for a in arg_not(s) if a.args[2] == 'ptr'][0]
    col = Collector(ctx, s, 'regrouped', V, None)
    ctx.require(col.calls, 'the grouped search fills no collection')
    changes = []
    for v in cand_vectors(s):
        for i, c in Collector(ctx, s, 'regrouped', v, None).calls:
            n = c.short.split('::')[-1]
            bad = n in ('resize', 'assign') or c.isctor and c.ptypes and not c.ptypes[0].startswith('std::vector<') or \
                n == 'emplace_back' and not c.params
            ctx.expect(not bad, 'regrouped-placeholder', i.where, 'entries are added that no series stands for')
            if v is V and not c.isctor and not c.isdtor and n not in QUIET:
                changes.append(i)
            if n == 'push_back' and c.params[0].op != 'elem':
                src, d = col.pushed(i, c)
                ctx.expect(src is not None and src.op == 'elem', 'regrouped-source', i.where,
                           'an entry is added that is not a member of a group')
    # a loop over all entries that sets each distance to the distance between query and that very entry
    sets = []
    for i in f.instrs():
        if i.op != 'store':
            continue
        q, v = s.info[i.id]['ptr'], s.info[i.id]['val']
        r, o = ptr_parts(q)
        if r.op == 'elem' and r.args[0] is V and name_of(q) == 'dist':
            sets.append((i, r, v))
    good = False
    for i, el, v in sets:
        d = [j for j in f.instrs() if is_dist_call(s, j) and s.vals[j.id] is v]
        ok = False
        for j in d:
            a = s.info[j.id]['args']
            ok = a[0] is query and ptr_parts(a[1])[0] is el and a[2] is INF
        if not ctx.expect(ok, 'regrouped-distance', i.where, 'an entry is given a distance that was not computed for it and the query'):
            continue
        hs = [h for h, b in f.loops.items() if i.blk in b]
        for h in hs:
            for rg in ranges(s, h):
                size = mk('size', s.peek(s.instate[h], V, 'obj'))
                if rg.atom is el.args[1] and rg.lo is const(0) and not rg.early and \
                        not iter_skips(s, h, [i]) and rg.hi is size_of(s, s.peek(s.instate[h], V, 'obj')):
                    later = [c for c in changes if c.blk in f.reachable(h) and c.blk not in f.loops[h] or c.blk in f.loops[h]]
                    if not later and all(f.dominates(h, r.blk) for r in rets(f)):
                        good = True
    ctx.expect(good, 'regrouped-all', f.where,
               'not every entry of the grouped search has its distance to the query computed before the result is returned')


def order(ctx):
    order_of(ctx, CAND, 'order')


def order_of(ctx, cls, what):
    """candidates are compared by distance unless the distances differ by less than the tolerance"""
    nm = cls + '::operator<'
    p = ctx.prog(plan([r'^%s\(' % nm], (), COMPARE))
    f = ctx.one(p, nm)
    s = ctx.sym(f, p, nogate=True)
    try:
        o = Order(s)
    except Unclear:
        o = None
    if o is not None:
        ks = {(ptr_parts(q)[1].get((), 0), 'double') for q in fields_named(s, 'dist')}
        ctx.require(len(ks) == 1 and ks <= set(o.keys), 'the order of candidates no longer looks at two distances')
        k = o.keys.index(ks.pop())
        bad = [(x, y) for a, x in enumerate(o.elements) for b, y in enumerate(o.elements) if x[k] < y[k] and (not o.less[a][b] or o.less[b][a])]
        ctx.expect(not bad, what, f.where, 'a candidate is not ranked before one that is farther away')
        ctx.count('cases of the order', len(o.elements) ** 2)
        return
    d = [mk('ld', q, 'double', ()) for q in fields_named(s, 'dist')]
    ctx.require(len(d) == 2, 'the order of candidates no longer looks at two distances')
    this = s.argByName['this']
    d.sort(key=lambda t: ptr_parts(t.args[0])[0] is not this)
    less = fcmp('olt', d[0], d[1])
    diff = {mk('fabs', mk('fsub', d[0], d[1])), mk('fabs', mk('fsub', d[1], d[0]))}
    n = 0

    def cases(v, fs, depth=0):
        """(value, facts) alternatives of a boolean result"""
        if v.op == 'phi' and v in s.minc and depth < 8:
            for pb, u in s.minc[v].items():
                yield from cases(u, list(fs) + edge(s, pb, v.args[1]), depth + 1)
        elif v.op == 'sel' and depth < 8:
            a, b = list(fs), list(fs)
            s.cond_facts(v.args[0], True, a)
            s.cond_facts(v.args[0], False, b)
            yield from cases(v.args[1], a, depth + 1)
            yield from cases(v.args[2], b, depth + 1)
        elif v.op == 'and' and depth < 8 or v.op == 'not' and v.args[0].op == 'and' and depth < 8:
            neg = v.op == 'not'
            x, y = (v.args[0] if neg else v).args
            t, e = list(fs), list(fs)
            s.cond_facts(x, True, t)
            s.cond_facts(x, False, e)
            from gx.sym import neg_
            yield from cases(neg_(y) if neg else y, t, depth + 1)
            yield from cases(TRUE if neg else const(0), e, depth + 1)
        else:
            yield v, fs
    for r in rets(f):
        for v, fs in cases(s.val(r.ops[0]), s.facts(r.blk)):
            tie = any(g.op == 'fcmp' and g.args[0] in ('olt', 'ole', 'ult', 'ule') and g.args[1] in diff and g.args[2].op == 'fconst'
                      and small(g.args[2]) for g in fs)
            known = v.op in ('true', 'false', 'int') and (less in fs) != (v.op in ('false', 'int') and str(v) in ('0', 'false'))
            ctx.expect(tie or v is less or known and (less in fs or not_(less) in fs), what, r.where,
                       'candidates whose distances differ by more than the tolerance are not compared by distance')
            n += 1
    ctx.require(n, 'the order of candidates has no result')
    ctx.count('cases of the order', n)


def not_(t):
    from gx.sym import neg_
    return neg_(t)


def small(c):
    try:
        return float(c.args[0]) <= 1e-6
    except (TypeError, ValueError):
        return False
