"""Any index or range of a series is inside the series or refused.

The lookups of a dataset (part of a series, name, length) and the point access
of a series are flattened.  At every normal return the object handed out is
taken apart case by case (every merge resolved together with the branch facts
of that case) and the inequalities 0 <= index < number of series,
0 <= start <= end <= length of that series, storage = base + index * row width
are derived from the dominating conditions.  Tables must not be read before the
index was checked, every exception raised is the library's, and a position that
is inside is not refused.  In every function of the series class, each direct
access to the points must use a position proven to lie in [0, length).
"""
from gx import api
from gx.lib import *

RULE = 'guard inequalities derived from dominating conditions at every return and every raw point access'


def run(ctx):
    ts = ts_roles(ctx)
    st = set_roles(ctx)
    p = ctx.prog(plan([r'^genex::TimeSeriesSet::(getTimeSeries|getTimeSeriesName|getItemLength)\(']))
    ctx.assume('every stored series length is between 0 and the row width (established where data is loaded, see C05)')

    def set_fields(s):
        this = s.argByName['this']
        return (mk('ld', st.at(this, 'getItemCount'), 'i32', ()), mk('ld', st.at(this, 'getMaxLength'), 'i32', ()),
                st.at(this, 'getItemLength'))

    def axioms(lens):
        def ax(a):
            if a.op == 'ld' and a.args[0].op == 'elem' and a.args[0].args[0] is lens:
                return [{(a,): -1}]
            return []
        return ax

    # ---------------------------------------------------------- lookups
    for name in ('getTimeSeries', 'getTimeSeriesName', 'getItemLength'):
        f = ctx.one(p, SET + '::' + name)
        s = ctx.sym(f, p, nogate=True)
        n, mc, lens = set_fields(s)
        idx = [a for a in s.argT if a.args[1] not in ('this', 'sret')][0]
        pr = Prover(s, axioms(lens))
        only_own_exceptions(ctx, s, name)
        rs = rets(f)
        ctx.require(rs, '%s never returns' % name)
        # table reads only after the check
        for i in f.instrs():
            if i.is_call and i.short in ('std::vector::operator[]', 'std::vector::at', 'std::vector::back', 'std::vector::front'):
                info = s.info[i.id]
                c = info['call']
                if c.this is None or ptr_parts(c.this)[0] is not s.argByName['this']:
                    continue
                if not c.params:
                    ctx.bad('%s-table' % name, i.where, 'a fixed element is read instead of the one asked for')
                    continue
                k = c.params[0]
                fs = s.facts(i.blk)
                ok = pr.in_range(k, n, fs)
                if c.this is not lens:
                    sz = mk('size', mk('ld', c.this, 'obj', ()))
                    ok = pr.ge0(k, fs) and pr.lt(k, sz, fs)
                ctx.expect(ok, '%s-table' % name, i.where,
                           'a table of the dataset is read at a position that was not checked')
                ctx.expect(k is idx, '%s-element' % name, i.where, 'the element read is not that of the index asked for')
                ctx.count('table reads')
        for r in rs:
            if name == 'getTimeSeries':
                o = s.argByName['sret']
                out = s.outstate[r.blk]
                v = [s.peek(out, ts.at(o, a), t) for a, t in
                     (('getData', 'ptr'), ('getIndex', 'i32'), ('getStart', 'i32'), ('getEnd', 'i32'), ('getLength', 'i32'))]
                a = [x for x in s.argT if x.args[1] not in ('this', 'sret')]
                ctx.require(len(a) == 3, 'getTimeSeries no longer takes index, start and end')
                cs = split(s, v, s.facts(r.blk))
                ctx.require(cs, 'no way to return from getTimeSeries')
                for (d, i_, b, e, l), fs in cs:
                    w = r.where
                    L = mk('ld', mk('elem', lens, a[0]), 'i32', ())
                    ctx.count('return cases')
                    ctx.expect(pr.in_range(a[0], n, fs), 'series-index', w, 'a series is handed out for an unchecked index')
                    root, off = ptr_parts(d)
                    want = {m: 8 * c for m, c in poly(mul(a[0], mc)).items()}
                    ctx.expect(root.op == 'ld' and ptr_parts(root.args[0])[0] is s.argByName['this'] and
                               not padd(off, want, -1), 'series-storage', w,
                               'the series handed out does not lie at index times row width: %s' % d)
                    ctx.expect(i_ is a[0], 'series-own-index', w, 'the series handed out carries another index')
                    ctx.expect(pr.ge0(b, fs) and pr.le(b, e, fs) and pr.le(e, L, fs), 'series-range', w,
                               'the range [%s, %s) is not proven to lie inside the series' % (b, e))
                    ctx.expect(not padd(poly(l), padd(poly(e), poly(b), -1), -1), 'series-length', w,
                               'the length of the series handed out is not end minus start')
                    whole = pr.lt(a[1], const(0), fs) and pr.lt(a[2], const(0), fs)
                    if whole:
                        ctx.expect(b is const(0) and e is L, 'series-whole', w, 'without a range the whole series is meant')
                    else:
                        ctx.expect(b is a[1] and e is a[2] and pr.lt(a[1], a[2], fs), 'series-part', w,
                                   'the range handed out is not the range asked for')
                # not too strict: what is inside must be handed out
                for t in throws(f):
                    for fs in ways(s, t.blk):
                        L = mk('ld', mk('elem', lens, a[0]), 'i32', ())
                        inside = [le0({(): 0, (a[0],): -1}), le0(padd(padd(poly(a[0]), poly(n), -1), {(): 1})),
                                  le0({(a[1],): -1}), le0(padd(padd(poly(a[1]), poly(a[2]), -1), {(): 1})),
                                  le0(padd(poly(a[2]), poly(L), -1))]
                        ctx.expect(pr.absurd(list(fs) + inside), 'series-refused', t.where,
                                   'a range that lies inside the series is refused')
                        whole = [le0({(): 0, (a[0],): -1}), le0(padd(padd(poly(a[0]), poly(n), -1), {(): 1})),
                                 le0({(a[1],): 1, (): 1}), le0({(a[2],): 1, (): 1})]
                        ctx.expect(pr.absurd(list(fs) + whole), 'series-refused-whole', t.where,
                                   'the whole series cannot be asked for')
            else:
                for fs in ways(s, r.blk):
                    ctx.expect(pr.in_range(idx, n, fs), '%s-index' % name, r.where,
                               '%s answers for an index that was not checked against the number of series' % name)
                if name == 'getItemLength':
                    for (v,), fs in split(s, [s.val(r.ops[0])], s.facts(r.blk)):
                        ctx.expect(v is mk('ld', mk('elem', lens, idx), 'i32', ()), 'length-value', r.where,
                                   'the length returned is not that of the series asked for')
        if name != 'getTimeSeries':
            for t in throws(f):
                for fs in ways(s, t.blk):
                    inside = [le0({(idx,): -1}), le0(padd(padd(poly(idx), poly(n), -1), {(): 1}))]
                    ctx.expect(pr.absurd(list(fs) + inside), '%s-refused' % name, t.where,
                               'a valid index is refused')
        ctx.count('lookups')

    # ---------------------------------------------------------- point access
    p2 = ctx.prog(plan([r'^genex::TimeSeries::(operator|average|printData|generateKeoghLU|getKeogh)',
                        r'^(void )?genex::TimeSeries::serialize', r'^genex::tsPAA\('],
                       keep=[r'^lower_upper_lemire']))
    f = ctx.one(p2, TS + '::operator[]')
    s = ctx.sym(f, p2, nogate=True)
    only_own_exceptions(ctx, s, 'point access')
    this = s.argByName['this']
    idx = [a for a in s.argT if a is not this][0]
    L = mk('ld', ts.at(this, 'getLength'), 'i32', ())
    pr = Prover(s)
    for r in rets(f):
        for (v,), fs in split(s, [s.val(r.ops[0])], s.facts(r.blk)):
            root, off = ptr_parts(v)
            want = {m: 8 * c for m, c in
                    poly(add(mk('ld', ts.at(this, 'getStart'), 'i32', ()), idx)).items()}
            ctx.expect(root is mk('ld', ts.at(this, 'getData'), 'ptr', ()) and not padd(off, want, -1), 'point-address',
                       r.where, 'the point handed out is not the one at start plus position')
            ctx.expect(pr.in_range(idx, L, fs), 'point-range', r.where,
                       'a point is handed out for a position that was not checked against the length')
    for t in throws(f):
        for fs in ways(s, t.blk):
            inside = [le0({(idx,): -1}), le0(padd(padd(poly(idx), poly(L), -1), {(): 1}))]
            ctx.expect(pr.absurd(list(fs) + inside), 'point-refused', t.where, 'a valid position is refused')
    ctx.assume('the length of a series object is never negative')
    nacc = 0
    for f in p2.funcs.values():
        s = ctx.sym(f, p2, nogate=True)
        pr = Prover(s, length_axiom(ts))
        for i in f.instrs():
            if i.op not in ('load', 'store'):
                continue
            q = s.info[i.id]['ptr']
            root, off = ptr_parts(q)
            if root.op != 'ld':
                continue
            o, oo = ptr_parts(root.args[0])
            if set(oo) - {()} or oo.get((), 0) != ts.off['getData'] or root.args[0].note is None or \
                    not root.args[0].note.startswith(TS + '::'):
                continue
            nacc += 1
            st_, ln = (s.peek(s.instate[i.blk], ts.at(o, x), 'i32') for x in ('getStart', 'getLength'))
            k = {}
            bad = False
            for m, c in off.items():
                if c % 8:
                    bad = True
                k[m] = c // 8
            k = mkpoly(padd(k, poly(st_), -1))
            fs = s.facts(i.blk)
            ctx.expect(not bad and pr.in_range(k, ln, fs), 'raw-point:%s' % f.short, i.where,
                       'a point is accessed at %s, not proven to lie in the series' % k)
    ctx.count('raw point accesses', nacc)
    ctx.require(nacc >= 4, 'raw point accesses not found')
