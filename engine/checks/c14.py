"""Group search picks the nearest representative and its nearest member.

 * The visiting order is decided on its construction: going down and going up
   from the query length, every step either adds the length (or skips it
   because the table has no such length) and moves on by one, or stops; it
   stops only at a length below two, beyond the table, or outside the warping
   band of the longer of the two lengths, and the whole loop is left only when
   both directions have stopped.
 * The loops over the lengths, over the groups of one length and over the
   members of the best group are best-so-far loops: they visit every element
   (a length without groups may be passed over), compare the distance computed
   for that element, replace distance and holder together exactly when the new
   distance is strictly smaller, and start from infinity (or the best so far).
 * The distance of a group is the warped distance between the query and its
   representative; the answer is the member held together with its distance.
 * Members are chained so that following the chain from its end meets all.
"""
from gx import api
from gx.lib import *
from gx.loops import ranges, exits, edge_cond, loops_of
from gx.walk import walks, iterations, leaves, header_phis
from gx.members import *
from gx.models import size_of
from gx.sym import fcmp, neg_
from gx.paths import rewrite
from gx.kbest import INF, is_dist_call

RULE = 'best-so-far loop rule (every element, strict comparison, joint update) and coverage of the visiting order'
ORDER = 'genex::generateTraverseOrder'
BAND = 'genex::calculateWarpingBandSize'
TSKEEP = r'^genex::TimeSeries::(?!getLength)'


def run(ctx):
    visiting(ctx)
    over_lengths(ctx)
    over_groups(ctx)
    representative(ctx)
    over_members(ctx)
    chain(ctx)


# ------------------------------------------------------------------ visiting order
def visiting(ctx):
    p = ctx.prog(plan([r'^%s\(' % ORDER], [r'^%s\(' % BAND]))
    f = ctx.one(p, ORDER)
    s = ctx.sym(f, p, nogate=True)
    q, top = [a for a in s.argT if a.args[2] == 'i32']
    pr = Prover(s)
    sret = s.argByName['sret']
    pushes = []
    for i in f.instrs():
        if i.is_call and i.short in ('std::vector::push_back', 'std::vector::emplace_back') and s.info[i.id]['call'].this is sret:
            c = s.info[i.id]['call']
            pushes.append((i, s.peek(api.state_before(s, i), c.params[0], 'i32')))
    bands = [(s.vals[i.id], s.info[i.id]['args'][0]) for i in f.instrs() if i.is_call and i.short == BAND]
    ctx.require(pushes, 'the visiting order adds no length')
    ctx.require(bands, 'the visiting order no longer asks for the warping band')
    # the query length itself
    own = [i for i, v in pushes if v is q]
    ctx.expect(bool(own), 'order:own', f.where, 'the length of the query itself is not visited')
    if own:
        ok = all(any(i.blk in w.set for i in own) or pr.lt(top, q, w.facts)
                 for w, b, n in walks(s, 0, stop=lambda b, n: n in f.loops))
        ctx.expect(ok, 'order:own', own[0].where, 'the length of the query itself can be left out although the table has it')

    def at_end(x, d, fs):
        """no length from x on in direction d is in the table and in the band"""
        if d < 0:
            if pr.le(x, const(1), fs):
                return True
            # outside the band of the longer length, the query
            return any(a is q and pr.lt(add(x, v), q, fs) for v, a in bands)
        if pr.lt(top, x, fs):
            return True
        return any(a is x and pr.lt(add(q, v), x, fs) for v, a in bands)

    for d, nm in ((-1, 'down'), (1, 'up')):
        found = []
        for h in f.loops:
            for x in header_phis(s, h):
                if x.args[2][0] == 'm' and x.args[2][2] != 'i32':
                    continue
                if s.minc[x]['entry'] is mkpoly({(q,): 1, (): d}):
                    found.append((h, x))
        if not ctx.expect(bool(found), 'order:%s' % nm, f.where, 'lengths %s than the query are not visited one by one' %
                          ('shorter' if d < 0 else 'longer')):
            continue
        good = False
        why = None
        for h, x in found:
            w = direction(s, h, x, d, pushes, top, at_end, pr)
            if w is None:
                good = True
                break
            why = w
        ctx.expect(good, 'order:%s' % nm, why or f.where, 'a length inside the band may be left out of the visiting order')
        ctx.count('directions of the visiting order')


def direction(s, h, x, d, pushes, top, at_end, pr):
    """None if the loop covers the direction, else the place of the problem"""
    f = s.fn
    its = iterations(s, h)
    nxt = mkpoly({(x,): 1, (): d})
    # flags of the loop that say that this direction has stopped
    flags = {}
    for a in header_phis(s, h):
        if a is x:
            continue
        ok = s.minc[a]['entry'].op == 'int' and s.minc[a]['entry'].args[0] == 0
        for w, b in its:
            if not ok:
                break
            v = w.val(s.minc[a][b])
            if v is a or unset(a, w) and v.op == 'int' and v.args[0] == 0:
                continue
            if v.op == 'int' and v.args[0] != 0 or v.op == 'true':
                # set: the direction has come to its end here, and stays there
                ok = (at_end(x, d, w.facts) or set_already(a, w)) and w.val(s.minc[x][b]) is x
            else:
                ok = False
        if ok:
            flags[a] = True
    for w, b in its:
        v = w.val(s.minc[x][b])
        if v is nxt:
            here = [i for i, u in pushes if i.blk in w.set and w.val(u) is x]
            if not here and not pr.lt(top, x, w.facts):
                return f.blocks[b].term.where
        elif v is x:
            if not (at_end(x, d, w.facts) or any(set_already(a, w) for a in flags) or
                    any(nonzero(w.val(s.minc[a][b])) for a in flags)):
                return f.blocks[b].term.where
        else:
            return f.blocks[b].term.where
    for w, b, n in leaves(s, h):
        if not (at_end(x, d, w.facts) or any(set_already(a, w) for a in flags)):
            return f.blocks[b].term.where
    return None


def nonzero(t):
    return t.op == 'int' and t.args[0] != 0 or t.op == 'true'


def set_already(a, w):
    return neg_(eq0({(a,): 1})) in w.fset or a in w.fset


def unset(a, w):
    return eq0({(a,): 1}) in w.fset or neg_(a) in w.fset if a.isbool else eq0({(a,): 1}) in w.fset


# ------------------------------------------------------------------ best so far
def best_loop(ctx, s, h, what, D, holders, cands, skip, start):
    """loop h keeps the smallest distance seen in D together with its holders.

    D: merged distance; holders: merged values kept with it; cands: call id -> (distance, holder values);
    skip(walk): an iteration may pass over its element; start: accepted first distances"""
    f = s.fn
    ctx.count('best-so-far loops')
    ctx.expect(s.minc[D]['entry'] in start, '%s:start' % what, f.where, 'the search does not start from the right distance')
    eq = same_counters(s, h)
    for w, b in iterations(s, h):
        nd = w.val(s.minc[D][b])
        ng = [rewrite(w.val(s.minc[g][b]), eq) for g in holders]
        here = [(i, cands[i.id]) for i in w.instrs() if i.id in cands]
        at = here[0][0].where if here else f.blocks[b].term.where
        if len(here) != 1:
            ctx.expect(not here and skip(w) and nd is D and ng == list(holders), '%s:every' % what, at,
                       'an element is passed over or the best so far is changed without examining one')
            continue
        d, gs = here[0][1]
        d, gs = w.val(d), [rewrite(w.val(g), eq) for g in gs]
        nearer = fcmp('olt', d, D)
        if nd is d and ng == gs:
            ok = nearer in w.fset
            msg = 'the best so far is replaced by an element that is not strictly nearer'
        elif nd is D and ng == list(holders):
            ok = neg_(nearer) in w.fset
            msg = 'an element that may be strictly nearer does not replace the best so far'
        elif nd.op == 'fmin' and set(nd.args) == {d, D} and (nearer in w.fset and ng == gs or
                                                               neg_(nearer) in w.fset and ng == list(holders)):
            ok = True
            msg = ''
        else:
            ok = False
            msg = 'the distance and its holder are not replaced together'
        ctx.expect(ok, '%s:update' % what, at, msg)
        ctx.count('iterations of best-so-far loops')


def same_counters(s, h):
    """variables of loop h that always have the same value: {one: other}"""
    out, seen = {}, {}
    for a in header_phis(s, h):
        inc = s.minc[a]
        st = [tuple(sorted((str(m), c) for m, c in padd(poly(v), {(a,): 1}, -1).items() if c)) for k, v in sorted(inc.items(), key=lambda x: str(x[0])) if k != 'entry']
        if any(set(x) - {y for y in x if y[0] == '()'} for x in st):
            continue
        k = (inc['entry'], tuple(st))
        if k in seen:
            out[a] = seen[k]
        else:
            seen[k] = a
    return out


def phis_of(s, h, t):
    """merge of loop h that t is"""
    return t if t.op == 'phi' and t.args[1] == h and t in s.minc else None


def orders_of(s):
    return {s.info[i.id]['call'].sret: i for i in s.fn.instrs() if i.is_call and i.short == ORDER}


def order_made(ctx, s, query):
    """the visiting order is made for the query and all lengths of the table"""
    f, orders = s.fn, orders_of(s)
    ctx.require(orders, 'the group search no longer asks for a visiting order')
    # the order is made for the query
    for V, i in orders.items():
        c = s.info[i.id]['call']
        ln = [j for j in f.instrs() if j.is_call and j.short == TS + '::getLength' and s.vals[j.id] is c.params[0]]
        ts = ts_roles(ctx)
        L = s.peek(api.state_before(s, i), ts.at(query, 'getLength'), 'i32')
        ctx.expect(c.params[0] is L or any(s.info[j.id]['call'].this is query for j in ln), 'lengths:query', i.where,
                   'the visiting order is not made for the length of the query')
        pr = Prover(s)
        tab = [v for j in f.instrs() if j.is_call and (j.short or '') == 'std::vector::operator[]' and 'LocalLengthGroupSpace' in j.dem
               for v in [s.info[j.id]['call'].this]]
        if tab:
            n = size_of(s, api.content_before(s, i, tab[0]))
            ctx.expect(pr.le(n, add(c.params[1], const(1)), s.facts(i.blk)), 'lengths:all', i.where,
                       'the visiting order is made for fewer lengths than the table has')


def order_loop(ctx, s, h):
    """(range, iterator, order) of the loop over the visiting order"""
    f, orders = s.fn, orders_of(s)
    # every position of the order
    V, rg = None, None
    for r in ranges(s, h):
        for v in orders:
            if r.lo is const(0) and r.hi is size_of(s, s.peek(s.instate[h], v, 'obj')) and not r.early and r.step == 1:
                V, rg = v, r
    it = None
    if rg is None:
        it = iterator_loop(s, h, orders)
    ctx.expect(rg is not None or it is not None, 'lengths:every', f.where, 'not every length of the visiting order is visited')
    return rg, it, V


def visited(s, obj, rg, V):
    """the groups at obj are those of the length being visited"""
    ent = place(obj) if obj is not None else None
    k = ent.args[1] if ent is not None and ent.op == 'elem' else NULL
    el = place(k) if k is not NULL else None
    if rg is not None:
        ok = el is not None and el.op == 'elem' and el.args[0] is V and el.args[1] is rg.atom
    else:
        ok = el is not None
    return ok


def no_groups(w):
    """on this way the length was found to have no groups"""
    return any(x.op == 'peq' and NULL in x.args and 'LocalLengthGroupSpace' in str(x) or
               x.op == 'peq' and NULL in x.args and any(place(y) is not None and place(y).op == 'elem' for y in x.args)
               for x in w.fset)


def over_lengths(ctx):
    nm = GGS + '::getBestMatch'
    p = ctx.prog(plan([r'^%s\(' % nm], [r'^%s::' % LGS, r'^%s::' % GRP, r'^%s\(' % ORDER, TSKEEP]))
    f = ctx.one(p, nm)
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    query = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] not in ('this', 'sret')][0]
    order_made(ctx, s, query)
    asks = [i for i in f.instrs() if i.is_call and i.short == LGS + '::getBestGroup']
    ctx.require(asks, 'the group search no longer asks for the best group of a length')
    hs = {loops_of(f, i.blk)[-1] for i in asks if loops_of(f, i.blk)}
    ctx.require(len(hs) == 1, 'the group search does not loop over the lengths')
    h = hs.pop()
    rg, it, V = order_loop(ctx, s, h)
    cands = {}
    for i in asks:
        c = s.info[i.id]['call']
        r = s.vals[i.id]
        cands[i.id] = (mk('ev', r, 1), [mk('ev', r, 0)])
        ok = visited(s, c.this, rg, V)
        ctx.expect(ok, 'lengths:entry', i.where, 'the groups asked are not those of the length being visited')
        ctx.expect(c.params[0] is query, 'lengths:asked', i.where, 'another series than the query is searched for')
    # the group used in the end
    uses = [i for i in f.instrs() if i.is_call and i.short == GRP + '::getBestMatch']
    ctx.require(len(uses) >= 1, 'the group search no longer asks the best group for its best member')
    for i in uses:
        c = s.info[i.id]['call']
        G = phis_of(s, h, c.this)
        if not ctx.expect(G is not None, 'lengths:used', i.where, 'the group used is not the best one found'):
            continue
        ctx.expect(c.params[0] is query, 'lengths:asked', i.where, 'another series than the query is searched for')
        ds = [a for a in header_phis(s, h) if (a.args[2][0] == 'r' or a.args[2][0] == 'm' and a.args[2][2] == 'double') and any(v.op == 'ev' or isd(s, v) for v in deep(s, a))
              and a is not G and s.minc[a]['entry'].op in ('fconst',)]
        if not ctx.expect(len(ds) == 1, 'lengths:distance', i.where, 'the distance of the best group is not kept along with it'):
            continue
        D = ds[0]
        ctx.expect(s.minc[G]['entry'] is NULL, 'lengths:start', f.where, 'the search does not start without a group')
        for j in asks:
            b = s.info[j.id]['call'].params[-1]
            ctx.expect(b in (D, INF), 'lengths:bound', j.where, 'the groups are searched under another bound than the best distance so far')
        best_loop(ctx, s, h, 'lengths', D, [G], cands, no_groups, {INF})
        # passed on unchanged as the answer
        ctx.expect(c.sret is s.argByName['sret'], 'lengths:answer', i.where, 'the answer is not the best member of the best group')
    for r in rets(f):
        ctx.expect(not api.reaches_without(s, r, uses), 'lengths:answer', r.where, 'an answer is returned that is not the best member of the best group')


def isd(s, v):
    return False


def deep(s, a):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in s.minc:
            todo += list(s.minc[x].values())
        elif x.op == 'sel':
            todo += list(x.args[1:])
    return seen


def iterator_loop(s, h, orders):
    """range-based loop over the order, left only at its end"""
    if len(exits(s, h)) != 1:
        return None
    for a in header_phis(s, h):
        e = s.minc[a]['entry']
        if e.op == 'vit' and e.args[0] in orders and e.args[1] is const(0):
            return a
        if a.args[2][0] == 'ix' or a.args[2][0] == 'm':
            if e is const(0) or e.op == 'int' and e.args[0] == 0:
                for b, n in exits(s, h):
                    c = edge_cond(s, b, n)
                    if c is not None and any(x.op == 'size' for x in subterms(c)) and any(x is a for x in subterms(c)):
                        return a
    return None


def over_groups(ctx):
    nm = LGS + '::getBestGroup'
    p = ctx.prog(plan([r'^%s\(' % nm], [r'^%s::' % GRP, TSKEEP]))
    f = ctx.one(p, nm)
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    query = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] != 'this'][0]
    fn = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] != 'this'][1]
    bound = [a for a in s.argT if a.args[2] == 'double']
    ctx.require(len(bound) == 1, 'the search of one length no longer takes a bound')
    asks = [i for i in f.instrs() if i.is_call and i.short == GRP + '::distanceFromCentroid']
    ctx.require(asks, 'the search of one length no longer asks for distances')
    hs = {loops_of(f, i.blk)[-1] for i in asks if loops_of(f, i.blk)}
    ctx.require(len(hs) == 1, 'the search of one length does not loop over the groups')
    h = hs.pop()
    cands, tabs = {}, set()
    for i in asks:
        c = s.info[i.id]['call']
        el = place(c.this)
        ok = el is not None and el.op == 'elem'
        if ok:
            tabs.add(el.args[0])
        ctx.expect(ok and c.params[0] is query and c.params[1] is fn, 'groups:asked', i.where,
                   'the distance asked for is not that between the query and a group of this length')
        cands[i.id] = (s.vals[i.id], [c.this])
    ok = False
    for r in ranges(s, h):
        for v in tabs:
            if r.lo is const(0) and r.step == 1 and not r.early and r.hi is size_of(s, s.peek(s.instate[h], v, 'obj')) and \
                    all(place(g).args[1] is r.atom for _, (g,) in cands.values()):
                ok = True
    ctx.expect(ok or it_range(s, h, tabs, cands), 'groups:every', f.where, 'not every group of the length is examined')
    pairs = 0
    for r in rets(f):
        v = s.val(r.ops[0]) if r.ops else None
        d = dict(v.args[0]) if v is not None and v.op == 'agg' else {}
        G, D = (phis_of(s, h, d[0]), phis_of(s, h, d[1])) if set(d) >= {0, 1} else (None, None)
        if not ctx.expect(G is not None and D is not None, 'groups:answer', r.where, 'the answer is not the best group with its distance'):
            continue
        pairs += 1
        ctx.expect(s.minc[G]['entry'] is NULL, 'groups:start', f.where, 'the search of one length does not start without a group')
        for j in asks:
            b = s.info[j.id]['call'].params[-1]
            ctx.expect(b in (D, INF, bound[0]), 'groups:bound', j.where, 'a group is examined under another bound than the best distance so far')
        best_loop(ctx, s, h, 'groups', D, [G], cands, lambda w: False, {bound[0]})
    ctx.require(pairs or ctx.violations, 'the search of one length never answers')


def it_range(s, h, tabs, cands):
    return False


def representative(ctx):
    nm = GRP + '::distanceFromCentroid'
    p = ctx.prog(plan([r'^%s::(distanceFromCentroid|setCentroid)\(' % GRP], [r'^%s::' % SET, TSKEEP]))
    f = ctx.one(p, nm)
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    this = s.argByName['this']
    ptrs = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] != 'this']
    query, fn = ptrs[0], ptrs[1]
    bound = [a for a in s.argT if a.args[2] == 'double'][0]
    calls = [i for i in f.instrs() if is_dist_call(s, i)]
    ctx.require(calls, 'the distance of a group is no longer computed')
    # the representative: what setCentroid assigns
    g = ctx.one(p, GRP + '::setCentroid')
    sg = ctx.sym(g, p, nogate=True, stable=stable_args)
    offs = set()
    for i in g.instrs():
        if i.is_call and i.short == TS + '::operator=':
            r, o = ptr_parts(sg.info[i.id]['call'].this)
            if r is sg.argByName['this']:
                offs.add(o.get((), 0))
    ctx.require(len(offs) == 1, 'the representative is not one field')
    off = offs.pop()
    C = ptr_add(this, {(): off} if off else {})
    for i in calls:
        a = s.info[i.id]['args']
        ctx.expect({a[0], a[1]} == {C, query} and a[2] in (bound, INF) and s.info[i.id].get('fptr') in (fn, None), 'centroid:distance', i.where,
                   'the distance of a group is not that between the query and its representative')
    for r in rets(f):
        ctx.expect(any(s.val(r.ops[0]) is s.vals[i.id] for i in calls), 'centroid:answer', r.where,
                   'the distance of a group is not what was computed for its representative')


def over_members(ctx):
    lk = Links(ctx)
    nm = GRP + '::getBestMatch'
    p = ctx.prog(plan([r'^%s\(' % nm], [POS]))
    f = ctx.one(p, nm)
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    sret = s.argByName['sret']
    ptrs = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] not in ('this', 'sret')]
    query, fn = ptrs[0], ptrs[1]
    ch = chains(ctx, lk, s)
    if not ctx.expect(len(ch) == 1, 'members:chain', f.where, 'the members of the group are not followed from the last one to the first'):
        return
    h, a, b = ch[0]
    ctx.expect(ends_only_at_end(s, h, a), 'members:every', f.where, 'the search can end before every member was examined')
    calls = [i for i in f.instrs() if is_dist_call(s, i) and i.blk in f.loops[h]]
    ctx.require(calls, 'no distance is computed for a member')
    cands = {}
    mlen = None
    for i in calls:
        ar = s.info[i.id]['args']
        src = [g for g in f.instrs() if g.is_call and g.short == SET + '::getTimeSeries' and s.info[g.id]['call'].sret in ar[:2]
               and f.dominates(g.blk, i.blk) and g.blk in f.loops[h]]
        ok = len(src) == 1
        if ok:
            c = s.info[src[0].id]['call']
            ln = mkpoly(padd(poly(c.params[2]), poly(c.params[1]), -1))
            ok = c.params[0] is a and c.params[1] is b and field(ln)[0] is s.argByName['this'] and {c.sret, query} == {ar[0], ar[1]}
        ctx.expect(ok and s.info[i.id].get('fptr') in (fn, None), 'members:examined', i.where, 'the distance computed is not that between the query and the member met')
        cands[i.id] = (s.vals[i.id], [a, b])
    # answer
    n = 0
    for r in rets(f):
        st = s.outstate[r.blk]
        dists = [s.info[i.id]['val'] for i in f.instrs() if i.op == 'store' and ptr_parts(s.info[i.id]['ptr'])[0] is sret and
                 name_of(s.info[i.id]['ptr']) == 'dist']
        D = phis_of(s, h, dists[-1]) if dists else None
        fills = [i for i in f.instrs() if i.is_call and i.short in (TS + '::TimeSeries', TS + '::operator=') and s.info[i.id]['call'].this is sret]
        best = None
        if len(fills) == 1:
            src = s.info[fills[0].id]['call'].params[0]
            gs = [g for g in f.instrs() if g.is_call and g.short == SET + '::getTimeSeries' and s.info[g.id]['call'].sret is src]
            if len(gs) == 1:
                c = s.info[gs[0].id]['call']
                best = [phis_of(s, h, c.params[0]), phis_of(s, h, c.params[1])]
                ln = mkpoly(padd(poly(c.params[2]), poly(c.params[1]), -1))
                ctx.expect(field(ln)[0] is s.argByName['this'], 'members:answer', gs[0].where, 'the answer is not of the length of the members')
        if not ctx.expect(D is not None and best is not None and None not in best, 'members:answer', r.where,
                          'the answer is not the nearest member with its distance'):
            continue
        n += 1
        for i in calls:
            ctx.expect(s.info[i.id]['args'][2] in (D, INF), 'members:bound', i.where, 'a member is examined under another bound than the best distance so far')
        best_loop(ctx, s, h, 'members', D, best, cands, lambda w: False, {INF})


def chain(ctx):
    """adding a member puts it at the end of the chain and keeps the link to the others"""
    lk = Links(ctx)
    s, f = lk.s, lk.f
    for r in rets(f):
        st = s.outstate[r.blk]
        fi = s.peek(st, ptr_add(lk.this, {(): lk.last} if lk.last else {}), 'i32')
        fj = s.peek(st, ptr_add(lk.this, {(): lk.last + 4}), 'i32')
        ctx.expect(fi is lk.idx and fj is lk.start, 'chain:last', r.where, 'a member added does not become the last one')
        ent = mk('elem', lk.table, lk.pos)
        ok = True
        for o in (0, 4):
            q = ptr_add(ent, {(): lk.prev + o} if lk.prev + o else {})
            vs = [(i, v) for i, a, v in lk.entries if a is q]
            both = [(i, v) for i, a, v in lk.entries if a is ptr_add(ent, {(): lk.prev} if lk.prev else {}) and v.op == 'ld' and v.args[1] == 'i64']
            ok = ok and (bool(vs) and all(is_old(v, lk.this, lk.last, o) for _, v in vs) and not api.reaches_without(s, r, [i for i, _ in vs]) or
                         bool(both) and all(field(v) == (lk.this, lk.last) for _, v in both) and not api.reaches_without(s, r, [i for i, _ in both]))
        ctx.expect(ok, 'chain:link', r.where,
                   'a member added is not linked to the one before it')
        ctx.expect(is_pos(lk, s, lk.pos, lk.idx, lk.start), 'chain:place', r.where, 'a member is not entered at its own place')
    init = ctx.prog(plan([r'^%s::Group\(' % GRP], [POS]))
    g = ctx.one(init, GRP + '::Group')
    sg = ctx.sym(g, init, nogate=True, stable=stable_args)
    for r in rets(g):
        v = sg.peek(sg.outstate[r.blk], ptr_add(sg.argByName['this'], {(): lk.last} if lk.last else {}), 'i32')
        ctx.expect(v.op == 'int' and v.args[0] == -1, 'chain:empty', r.where, 'a new group does not start with an empty chain')
