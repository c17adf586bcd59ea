"""Grouped k-best search keeps the nearest groups and the nearest members.

Three functions are flattened.
* Choosing groups of one length: the loop visits every group, asks for the distance of its representative, and enters it with its own
  length, number, member count and distance, or drops it.  The collection of groups is tracked as a value together with the number of
  members still missing: on every way round every loop that number changes by exactly the members entered and removed, whenever
  it is not positive the farthest group comes first (heap typestate), a group is dropped only then and only if it is not nearer than the
  first, only the first is removed, and only if enough members remain without it; no further one can be removed when the step ends.
* The search over all lengths: every length of the visiting order that has groups is searched, with the same collection and the number
  still missing; of the first group kept the nearest members are asked for, as many as are missing without it, of all others every
  member is taken, and all of these reach the result.
* Inside a group: the member list is followed to its end, every member's distance is computed, and a member is dropped only
  when the wanted number of members at least as near is held.
"""
from gx import api
from gx.kbest import *
from gx.loops import ranges, iter_skips, loops_of
from gx.members import Links, chains, ends_only_at_end, POS, field
from gx.walk import iterations, header_phis
from checks import c12, c13, c14

RULE = 'conservation of the number of missing members, heap typestate, drop and removal conditions per path, complete transfer'
GI = 'genex::group_index_t'
INTER = LGS + '::interLevelKSim'


class Groups(Collector):
    """collection of groups whose weight (members) is limited"""
    ELEM = GI

    def setup(self, outer, q):
        self.outer = outer
        same = congruent(self.s)
        self.nf = lambda t: rewrite(t, same)
        self.q = {outer: self.nf(q)}
        self.raw = {outer: q}
        self.always = {h for h in self.heads if h != outer}

    def heap_ok(self, t, fs, pr):
        for h, c in self.heads.items():
            if t is c:
                return h in self.always or h in self.q and pr.le(self.q[h], const(0), list(fs) + self.hyps)
        return Collector.heap_ok(self, t, fs, pr)


def group_fields(s, i, c):
    """{offset: value} of the group entered by call i"""
    st = api.state_before(s, i)
    p = c.params[0]
    out = {}
    if c.short.endswith('emplace_back'):
        return {n: v for n, v in enumerate(c.params)}
    for (q, ty) in s.universe:
        r, o = ptr_parts(q)
        r0, o0 = ptr_parts(p)
        d = padd(o, o0, -1)
        if r is r0 and not (set(d) - {()}) and ty in ('i32', 'double'):
            out[(d.get((), 0), ty)] = s.peek(st, q, ty)
    return out


def length_field(ctx, p):
    """offset of the length in the groups of one length: what its constructor stores"""
    f = ctx.one(p, LGS + '::LocalLengthGroupSpace')
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    arg = [a for a in s.argT if a.args[2] == 'i32']
    offs = {ptr_parts(s.info[i.id]['ptr'])[1].get((), 0) for i in f.instrs() if i.op == 'store' and s.info[i.id]['val'] is arg[0] and
            ptr_parts(s.info[i.id]['ptr'])[0] is s.argByName['this']} if len(arg) == 1 else set()
    ctx.require(len(offs) == 1, 'the length of the groups of one length is not one field')
    return offs.pop()


def choose(ctx):
    p = ctx.prog(plan([r'^%s\(' % INTER, r'^%s::LocalLengthGroupSpace\(' % LGS], [r'^%s::' % GRP, r'^%s::' % SET, c14.TSKEEP]))
    f = ctx.one(p, INTER)
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    loff = length_field(ctx, p)
    this = s.argByName['this']
    ptrs = [a for a in s.argT if a.args[2] == 'ptr' and a is not this]
    ints = [a for a in s.argT if a.args[2] == 'i32']
    ctx.require(len(ptrs) == 3 and len(ints) == 1, 'choosing groups of one length no longer takes query, distance, groups and a number')
    query, fn, V = ptrs
    K = ints[0]
    col = Groups(ctx, s, 'groups', V, K)
    ctx.require(col.pushes() and col.heads, 'no group is entered in a loop')
    col.check_ops()
    pr = Prover(s)
    asks = [i for i in f.instrs() if i.is_call and i.short == GRP + '::distanceFromCentroid']
    ctx.require(asks, 'no distance of a representative is asked for')
    hs = {loops_of(f, i.blk)[0] for i in asks if loops_of(f, i.blk)}
    ctx.require(len(hs) == 1, 'the groups are not looked at in one loop')
    h = hs.pop()
    qs = [t for t, inc in s.minc.items() if t.args[1] == h and inc.get('entry') is K]
    ctx.require(len(qs) == 1 and h in col.heads, 'the number of missing members is not carried round the loop')
    col.setup(h, qs[0])
    # every group
    tabs, dist = {}, {}
    for i in asks:
        c = s.info[i.id]['call']
        el = place(c.this)
        ok = el is not None and el.op == 'elem' and c.params[0] is query and c.params[1] is fn
        if ctx.expect(ok, 'groups:asked', i.where, 'the distance asked for is not that between the query and a group of this length'):
            tabs[el.args[0]] = el.args[1]
            dist[s.vals[i.id]] = (i, el)
    rg = [r for r in ranges(s, h) for v, a in tabs.items() if r.atom is a and r.lo is const(0) and abs(r.step) == 1 and not r.early and
          r.hi is size_of(s, s.peek(s.instate[h], v, 'obj'))]
    ctx.expect(len(tabs) == 1 and (rg or c14.it_range(s, h, tabs, {i.id: (d, [s.info[i.id]['call'].this]) for d, (i, e) in dist.items()})) and
               not iter_skips(s, h, asks), 'groups:every', f.where, 'not every group of the length is looked at')
    # what is entered
    weight, roles = {}, None
    for i, c in col.pushes():
        fl = group_fields(s, i, c)
        d = [(k, v) for k, v in fl.items() if v in dist]
        if not ctx.expect(len(d) == 1, 'groups:entered', i.where, 'a group is entered with a distance that was not computed for it'):
            continue
        el = dist[d[0][1]][1]
        cnt = [(k, v) for k, v in fl.items() if is_count(s, v, el)]
        num = [(k, v) for k, v in fl.items() if v is el.args[1]]
        ln = [(k, v) for k, v in fl.items() if place(v) is not None and field(v) == (this, loff)]
        if not ctx.expect(len(cnt) == 1 and len(num) == 1 and len(ln) == 1, 'groups:entered', i.where,
                          'a group is not entered with its own length, number and member count'):
            continue
        weight[i.id] = cnt[0][1]
        rl = [x[0][0] for x in (ln, num, cnt, d)]
        if not c.short.endswith('emplace_back'):
            ctx.expect(roles in (None, rl), 'groups:entered', i.where, 'groups are entered with differing fields')
            roles = rl
        ctx.count('places entering a group')
    ctx.require(roles is not None or ctx.viol, 'the fields of an entered group are not known')
    if roles is None:
        return None
    off = {n: k[0] for n, k in zip(('length', 'index', 'members', 'dist'), roles)}

    def front(st):
        return col.nf(s.peek(st, ptr_add(mk('elem', V, const(0)), {(): off['members']}), 'i32'))

    def trace(t):
        """(head content reached, members entered, members removed, ops) walking the changes of t backwards"""
        plus, minus, ops = {}, {}, []
        while t not in col.heads.values():
            if t.op == 'push':
                if t.args[1] not in weight:
                    return None
                plus = padd(plus, poly(weight[t.args[1]]))
                ops.append('push')
            elif t.op == 'pop':
                x = t.args[0]
                if not (x.op == 'perm' and x.args[1] == 'std::pop_heap'):
                    return None
                j = col.byid[x.args[2]][0]
                minus = padd(minus, poly(front(api.state_before(s, j))))
                ops.append(('pop', x.args[0]))
            elif t.op != 'perm':
                return None
            t = t.args[0]
        return t, plus, minus, ops

    head_of = {c: g for g, c in col.heads.items()}
    order = sorted(col.heads, key=lambda g: f.rpo_no[g])
    # counters of the inner loops: the merge that satisfies the balance
    for g in order:
        if g == h:
            continue
        for t, inc in s.minc.items():
            if t.args[1] != g or 'entry' not in inc or t.args[2][0] not in ('r', 'm'):
                continue
            pp = [x for x in f.blocks[g].preds if x not in f.loops[g]]
            good = True
            for x in pp:
                for (cv, kv), fs in split(s, [s.minc[col.heads[g]]['entry'], inc['entry']], edge(s, x, g)):
                    tr, kv = trace(cv), col.nf(kv)
                    good = good and tr is not None and head_of[tr[0]] in col.q and \
                        not [1 for v in padd(padd(padd(poly(kv), poly(col.q[head_of[tr[0]]]), -1), tr[1]), tr[2], -1).values() if v]
            if good:
                col.q[g], col.raw[g] = col.nf(t), t
                break
        ctx.expect(g in col.q, 'groups:balance', f.blocks[g].term.where, 'the number of missing members does not follow the groups entered and removed')
    if set(col.q) != set(col.heads):
        return off
    # which loops are only entered with a heap
    while True:
        bad = set()
        for g in col.always:
            for x, cv, kv, fs in ways_in(s, col, g):
                if not pr.absurd(fs) and not col.heap_ok(cv, fs, pr):
                    bad.add(g)
        if not bad:
            break
        col.always -= bad
    n = 0
    for g in order:
        for x, cv, kv, fs in ways_in(s, col, g):
            if pr.absurd(fs):
                continue
            if g == h and x not in f.loops[h]:
                continue      # start: nothing known to be held, see the caller
            at = f.blocks[x].term.where
            tr = trace(cv)
            if not ctx.expect(tr is not None, 'groups:changes', at, 'the groups kept are changed in a way that is not accounted for'):
                continue
            base, plus, minus, ops = tr
            b = head_of[base]
            n += 1
            bal = padd(padd(padd(poly(kv), poly(col.q[b]), -1), plus), minus, -1)
            ctx.expect(not [1 for v in bal.values() if v], 'groups:balance', at,
                       'the number of missing members does not follow the groups entered and removed')
            ctx.expect(pr.lt(const(0), kv, fs) or col.heap_ok(cv, fs, pr), 'groups:heap', at,
                       'enough members can be held without the farthest group being first')
            for o in ops:
                if o != 'push':
                    ctx.expect(col.heap_ok(o[1], fs, pr), 'groups:removed', at, 'a group other than the farthest one can be removed')
                    ctx.expect(pr.le(kv, const(0), fs), 'groups:removed', at, 'a group is removed although its members are still needed')
            pushes = ops.count('push')
            inner_back = x in f.loops[g] and g != h
            ctx.expect(pushes <= (1 if b == h and not inner_back else 0), 'groups:twice', at, 'a group is entered twice')
            if b == h and not pushes:
                full = pr.le(col.q[h], const(0), fs)
                worse = any(fc in c13.nearer(d, y) for fc in fs for d in dist for y in fronts(col, fc))
                ctx.expect(full and worse, 'groups:dropped', at, 'a group is dropped although the groups kept have too few members or are farther away')
            elif g == h:
                m = front(s.outstate[x])
                ok = pr.lt(const(0), kv, fs) or pr.lt(const(0), add(kv, m), fs) or \
                    any(pr.lt(const(0), add(col.q[b], y), fs) for y in front_values(s, col, off['members']))
                ctx.expect(ok, 'groups:trimmed', at, 'a group can stay that is not needed')
    ctx.count('ways round the loops of groups', n)
    # bounds
    for d, (i, el) in dist.items():
        fs = list(s.facts(i.blk))
        fs += [col.nf(y) for y in fs]
        b = s.info[i.id]['call'].params[-1]
        ok = all(y is INF or col.is_front(y) and col.heap_ok(col.heads[h], gs, pr) for (y,), gs in split(s, [b], fs))
        ctx.expect(ok, 'groups:bound', i.where, 'a representative is examined under another bound than the distance of the farthest group kept')
    for r in rets(f):
        for (v, cv), fs in split(s, [s.val(r.ops[0]), s.peek(s.outstate[r.blk], V, 'obj')], s.facts(r.blk)):
            ctx.expect(col.nf(v) is col.q[h] and cv is col.heads[h], 'groups:answer', r.where,
                       'the number handed back is not the number of members still missing')
    return off


def ways_in(s, col, g):
    """(predecessor, content, missing, facts) of every way into loop g"""
    c, q = col.heads[g], col.raw[g]
    body = s.fn.loops[g]
    for p, v in s.minc[c].items():
        for x in ([b for b in s.fn.blocks[g].preds if b not in body] if p == 'entry' else [p]):
            for (cv, kv), fs in split(s, [v, s.minc[q][p]], edge(s, x, g)):
                yield x, cv, col.nf(kv), list(fs) + [col.nf(y) for y in fs]


def fronts(col, fc):
    t = fc.args[0] if fc.op == 'not' else fc
    return [y for y in t.args if isinstance(y, T) and c13.front_or_inf(col, y)] if t.op == 'fcmp' else []


def front_values(s, col, off):
    """terms for the member count of the first group held"""
    out = []
    for t in s.minc:
        if t.args[2][0] == 'm' and t.args[2][2] == 'i32' and t.args[2][1] is ptr_add(mk('elem', col.V, const(0)), {(): off}):
            out.append(col.nf(t))
    return out


def is_count(s, v, el):
    """value is the member count of the group at el"""
    for i in s.fn.instrs():
        if i.is_call and i.short == GRP + '::getCount' and s.vals[i.id] is v:
            return place(s.info[i.id]['call'].this) is el
    return False


def whole(ctx, s, X, start, target, ends, depth=0):
    """everything in collection X, filled in block start, is added to target before one of the ends"""
    f = s.fn
    if X is target:
        return True
    if depth > 3:
        return False
    # assigned to an empty one
    for i in f.instrs():
        c = s.info.get(i.id, {}).get('call')
        if c is not None and c.short == 'std::vector::operator=' and c.params and c.params[0] is X and \
                size_of(s, api.content_before(s, i, c.this)) is const(0) and not avoids(s, start, [i.blk], ends) and \
                whole(ctx, s, c.this, i.blk, target, ends, depth + 1):
            return True
    # inserted as a whole
    for i in f.instrs():
        c = s.info.get(i.id, {}).get('call')
        if c is None or c.short != 'std::vector::insert' or len(c.params) != 3 or c.this is X:
            continue
        n = size_of(s, api.content_before(s, i, X))
        if c.params[1] is mk('vit', X, const(0)) and c.params[2] is mk('vit', X, n) and not avoids(s, start, [i.blk], ends) and \
                whole(ctx, s, c.this, i.blk, target, ends, depth + 1):
            return True
    for h in f.loops:
        for r in ranges(s, h):
            if r.lo is not const(0) or abs(r.step) != 1 or r.early or r.hi is not size_of(s, s.peek(s.instate[h], X, 'obj')):
                continue
            el = mk('elem', X, r.atom)
            for i in f.instrs():
                c = s.info.get(i.id, {}).get('call')
                if c is None or c.short not in GROW or i.blk not in f.loops[h] or c.this is X:
                    continue
                src = el if c.params and c.params[0] is el else Collector(ctx, s, 'x', c.this, None).pushed(i, c)[0]
                if src is el and not iter_skips(s, h, [i]) and not avoids(s, start, [h], ends):
                    if whole(ctx, s, c.this, h, target, ends, depth + 1):
                        return True
    return False


def added(ctx, s, X, call, target):
    hs = loops_of(s.fn, call.blk)
    return whole(ctx, s, X, call.blk, target, [hs[-1]] if hs else [r.blk for r in rets(s.fn)])


def avoids(s, start, through, ends):
    """some way from start to one of the ends does not pass the blocks in through"""
    f = s.fn
    seen, todo = set(), [n for n in f.blocks[start].succs]
    while todo:
        b = todo.pop()
        if b in seen or b in through:
            continue
        seen.add(b)
        if b in ends:
            return True
        t = f.blocks[b].term
        todo += [n for n in f.blocks[b].succs if not api.dead_edge(s, b, n)]
    return False


def search(ctx, off):
    nm = GGS + '::getKBestMatches'
    p = ctx.prog(plan([r'^%s\(' % nm], [r'^%s::' % LGS, r'^%s::' % GRP, r'^%s\(' % c14.ORDER, c14.TSKEEP]))
    f = ctx.one(p, nm)
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    sret = s.argByName['sret']
    query = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] not in ('this', 'sret')][0]
    K = [a for a in s.argT if a.args[2] == 'i32']
    ctx.require(len(K) == 1, 'the grouped search no longer takes one number')
    pr = Prover(s)
    c14.order_made(ctx, s, query)
    asks = [i for i in f.instrs() if i.is_call and i.short == INTER]
    ctx.require(len(asks) >= 1, 'the grouped search no longer chooses groups')
    hs = {loops_of(f, i.blk)[-1] for i in asks if loops_of(f, i.blk)}
    ctx.require(len(hs) == 1, 'the grouped search does not loop over the lengths')
    h = hs.pop()
    rg, it, V = c14.order_loop(ctx, s, h)
    B = {s.info[i.id]['call'].params[2] for i in asks}
    qs = [t for t, inc in s.minc.items() if t.args[1] == h and inc.get('entry') is K[0]]
    if not ctx.expect(len(B) == 1 and len(qs) == 1, 'lengths:carried', f.where, 'groups and missing members are not carried over all lengths'):
        return
    B, q = B.pop(), qs[0]
    byid = {i.id: i for i in asks}
    for i in asks:
        c = s.info[i.id]['call']
        ok = c14.visited(s, c.this, rg, V)
        ctx.expect(ok, 'lengths:entry', i.where, 'the groups asked are not those of the length being visited')
        ctx.expect(c.params[0] is query and c.params[3] is q, 'lengths:asked', i.where,
                   'a length is searched for another series or another number than the one still missing')
    for w, b in iterations(s, h):
        here = [i for i in w.instrs() if i.id in byid]
        nq = w.val(s.minc[q][b])
        if len(here) != 1:
            ctx.expect(not here and c14.no_groups(w) and nq is q, 'lengths:every', f.blocks[b].term.where, 'a length that has groups is passed over')
        else:
            ctx.expect(nq is s.vals[here[0].id], 'lengths:carried', here[0].where, 'the number still missing is not carried on to the next length')
        ctx.count('ways through the loop of lengths')
    # what happens to the groups kept
    start = s.minc.get(next((t for t in s.minc if t.args[1] == h and t.args[2] == ('m', B, 'obj')), None), {}).get('entry')
    ctx.expect(start is not None and size_of(s, start) is const(0), 'kept:start', f.where, 'the search does not start without groups')
    erase = []
    for i in f.instrs():
        c = s.info.get(i.id, {}).get('call')
        if c is None or c.this is not B or not c.short.startswith('std::vector::'):
            continue
        n = c.short.split('::')[-1]
        if c.isctor or c.isdtor or n in QUIET:
            continue
        if n == 'erase' and len(c.params) == 1 and c.params[0] is mk('vit', B, const(0)) and not loops_of(f, i.blk):
            erase.append(i)
        else:
            ctx.bad('kept:changed', i.where, 'the groups kept are changed before they are used')
    ctx.expect(len(erase) <= 1, 'kept:changed', f.where, 'more than one group is taken out')

    def entry(t, what):
        """position of the group a field value belongs to, in the list as the loop over the lengths left it"""
        pl = place(t)
        r, o = ptr_parts(pl) if pl is not None else (None, None)
        if r is None or r.op != 'elem' or r.args[0] is not B or o.get((), 0) != off[what] or set(o) - {()}:
            return None
        if not erase:
            return r.args[1]
        if s.peek(api.state_before(s, erase[0]), pl, 'i32') is t and r.args[1] is const(0):
            return r.args[1]
        return add(r.args[1], const(1))

    def group_at(g):
        """position of the group that the pointer g stands for"""
        for i in f.instrs():
            if i.is_call and i.short == LGS + '::getGroup' and s.vals[i.id] is g:
                c = s.info[i.id]['call']
                el = place(c.this)
                if el is not None and el.op == 'elem':
                    a, b = entry(el.args[1], 'length'), entry(c.params[0], 'index')
                    if a is not None and a is b:
                        return a
        return None
    intra = [i for i in f.instrs() if i.is_call and i.short == c12.INTRA]
    every = [i for i in f.instrs() if i.is_call and i.short == GRP + '::getMembers']
    ctx.require(intra, 'the grouped search no longer asks a group for its nearest members')
    ctx.require(every, 'the grouped search no longer takes members of the other groups')
    for i in intra:
        c = s.info[i.id]['call']
        fs = s.facts(i.blk)
        at = group_at(c.this)
        ok = at is not None and pr.le(at, const(0), fs) and pr.ge0(at, fs)
        ctx.expect(ok, 'first:group', i.where, 'the group asked for its nearest members is not the first one kept')
        rest = mkpoly(padd(poly(c.params[1]), poly(q), -1))
        ctx.expect(c.params[0] is query and at is not None and entry(rest, 'members') is at, 'first:number', i.where,
                   'the number of members asked for is not the number missing without that group')
        ctx.expect(added(ctx, s, c.sret, i, sret), 'first:result', i.where, 'the members found are not all added to the result')
    B0 = None
    heads = set()
    for i in every:
        c = s.info[i.id]['call']
        fs = s.facts(i.blk)
        at = group_at(c.this)
        hs = loops_of(f, i.blk)
        rgs = [r for r in ranges(s, hs[-1]) if r.step == 1 and not r.early] if hs else []
        ok = at is not None and len(hs) == 1 and pr.lt(const(0), at, fs)
        ctx.expect(ok, 'others:group', i.where, 'members are taken from a group that is not one of the others kept')
        if not ok:
            continue
        heads.add(hs[-1])
        lo = [r for r in rgs if not set(padd(poly(at), poly(r.atom), -1)) - {()} and r.hi is size_of(s, s.peek(s.instate[hs[-1]], B, 'obj'))
              and pr.le(rewrite(at, {r.atom: r.lo}), const(1), s.facts(hs[-1]))]
        ctx.expect(lo, 'others:every', i.where, 'the loop does not go over all other groups kept')
        ctx.expect(added(ctx, s, c.sret, i, sret), 'others:result', i.where, 'the members are not all added to the result')
        for w, b in iterations(s, hs[-1]):
            here = [j for j in w.instrs() if j in every]
            first = [j for j in w.instrs() if j in intra]
            good = len(here) == 1 or len(first) == 1 and not here and pr.le(at, const(0), list(w.fset))
            ctx.expect(good, 'others:skipped', f.blocks[b].term.where, 'a group kept can be passed over')
            ctx.count('ways through the loop of groups kept')
    for r in rets(f):
        for g in heads:
            ctx.expect(not avoids(s, 0, [g], [r.blk]), 'others:every', r.where, 'the result can be returned without the other groups')

        def none(b, n):
            c = s_edge(s, b, n)
            z = [x for x in (s.peek(s.outstate[b], B, 'obj'),) if x is not None]
            return any(pr.le(size_of(s, x), const(0), c) for x in z)
        for i in intra:
            if not loops_of(f, i.blk):
                ctx.expect(not api.reaches_without(s, r, intra, skip_edge=none), 'first:always', r.where,
                           'the result can be returned without the first group kept')


def s_edge(s, b, n):
    out = []
    s.edge_facts(b, n, out)
    return out


def inside(ctx):
    """members of one group"""
    lk = Links(ctx)
    for nm, col in c12.collectors(ctx):
        if nm != c12.INTRA:
            continue
        s, f = col.s, col.fn
        if not col.invariant():
            ctx.bad('members:size', f.where, 'it is not established how many members are held')
            continue
        col.hyps = col.hyps + [le0({(): 1, (col.k,): -1})]
        c13.kept(ctx, nm, col)
        p = ctx.prog(plan([r'^%s\(' % nm], [POS]))
        g = ctx.one(p, nm)
        t = ctx.sym(g, p, nogate=True, stable=stable_args)
        ch = chains(ctx, lk, t)
        if not ctx.expect(len(ch) == 1, 'members:chain', g.where, 'the members of the group are not followed from the last one to the first'):
            continue
        h, a, b = ch[0]
        ctx.expect(ends_only_at_end(t, h, a), 'members:every', g.where, 'the search can end before every member was examined')
        calls = [i for i in g.instrs() if is_dist_call(t, i) and i.blk in g.loops[h]]
        ctx.require(calls, 'no distance is computed for a member')
        ctx.expect(not iter_skips(t, h, calls), 'members:skipped', g.where, 'a member can be passed over without its distance being computed')
        for i in calls:
            ar = t.info[i.id]['args']
            src = [j for j in g.instrs() if j.is_call and j.short == SET + '::getTimeSeries' and t.info[j.id]['call'].sret in ar[:2]
                   and g.dominates(j.blk, i.blk) and j.blk in g.loops[h]]
            ok = len(src) == 1
            if ok:
                c = t.info[src[0].id]['call']
                ok = c.params[0] is a and c.params[1] is b and \
                    field(mkpoly(padd(poly(c.params[2]), poly(c.params[1]), -1)))[0] is t.argByName['this']
            ctx.expect(ok, 'members:examined', i.where, 'the distance computed is not that of the member met')
        ctx.count('members loops')
    c14.chain(ctx)


def run(ctx):
    off = choose(ctx)
    if off is not None:
        search(ctx, off)
    inside(ctx)
    c14.representative(ctx)
    c14.visiting(ctx)
    c12.order_of(ctx, GI, 'groups')
    c12.order(ctx)
    ctx.require(ctx.counts.get('ways round the loops of groups', 0) >= 4 or ctx.viol, 'too few ways round the loops')
    ctx.assume('the number to be examined is positive where the grouped search starts (refused otherwise, see C12)')
