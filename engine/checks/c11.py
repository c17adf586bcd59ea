"""Similarity search is safe for every query and every grouping state.

Decided on the flattened search functions of the dataset, the group space, the
groups of one length and the single group:
 * a dataset that is not grouped, or has no prepared block averages, is refused
   by the library's exception before anything is searched, and block averages
   are kept under a name only after they were computed completely;
 * every position looked up in a table is proved to lie inside the table: the
   visiting order of the lengths contains only positions of the table of
   lengths (proved where each is added), positions recorded for a group are its
   own length and its own index, coordinates of group members are checked by
   the dataset before the member table is read, envelopes are read below the
   length of the series they belong to;
 * the entry found for a length is used only after a test that there are groups
   of that length, or because a group of that length was recorded before; the
   entry at a position of the table is always created for that very length;
 * a best group is used only after a test that one was found;
 * the answer is fetched from the dataset the groups were created for.
"""
from gx import api
from gx.lib import *
from gx.models import size_of
from gx.kbest import CAND

RULE = 'guarded use of table entries and best groups, subscripts proved in range, origin of the answer'
ORDER = 'genex::generateTraverseOrder'
TSKEEP = r'^genex::TimeSeries::(?!getLength)'
ENTRY = ('ld',)


def index_calls(s):
    """(instruction, vector address, position or None for front/back)"""
    for i in s.fn.instrs():
        if not i.is_call or not i.short or not i.short.startswith('std::vector::'):
            continue
        m = i.short.split('::')[-1]
        c = s.info[i.id]['call']
        if m == 'operator[]':
            yield i, c.this, s.info[i.id]['args'][1]
        elif m in ('front', 'back', 'pop_back'):
            yield i, c.this, None


def subscripts(ctx, s, what, pr, accept=lambda i, v, k: False, hyps=()):
    for i, v, k in index_calls(s):
        ctx.count('subscripts')
        if accept(i, v, k):
            ctx.ok('%s:subscript' % what)
            continue
        n = size_of(s, api.content_before(s, i, v))
        ok = all(pr.in_range(const(0) if k is None else k, n, list(fs) + list(hyps)) for fs in ways(s, i.blk, 2))
        ctx.expect(ok, '%s:subscript' % what, i.where, 'position %s is not known to lie inside the table (size %s)' % (k, n))


def non_null(s, v, fs):
    return v.op == 'new' or any(x.op == 'not' and x.args[0].op == 'peq' and v in x.args[0].args and NULL in x.args[0].args for x in fs)


def run(ctx):
    order(ctx)
    table(ctx)
    lengths(ctx)
    group(ctx)
    envelope(ctx)
    refused(ctx)
    paa(ctx)


# ------------------------------------------------------------------ visiting order
def order(ctx):
    p = ctx.prog(plan([r'^%s\(' % ORDER]))
    f = ctx.one(p, ORDER)
    s = ctx.sym(f, p, nogate=True)
    ints = [a for a in s.argT if a.args[2] == 'i32']
    ctx.require(len(ints) == 2, 'the visiting order is no longer made from two lengths')
    q, top = ints
    pr = Prover(s)
    sret = s.argByName['sret']
    n = 0
    for i in f.instrs():
        c = s.info.get(i.id, {}).get('call') if i.is_call else None
        if c is None or c.this is not sret or c.isctor or c.isdtor or c.is_const:
            continue
        if i.short.split('::')[-1] in ('reserve', 'begin', 'end', 'size'):
            continue
        if not ctx.expect(i.short.split('::')[-1] in ('push_back', 'emplace_back') and len(c.params) == 1, 'order:filled', i.where,
                          'the visiting order is changed other than by adding a length'):
            continue
        v = s.peek(api.state_before(s, i), c.params[0], 'i32') if i.short.endswith('push_back') or c.params[0].op != 'int' else c.params[0]
        n += 1
        # the length of a query is never negative
        hyp = [le0({(q,): -1})]
        ok = True
        for (w,), fs in split(s, [v], s.facts(i.blk)):
            for fs in unfold(s, list(fs) + hyp):
                ok = ok and pr.ge0(w, fs) and pr.le(w, top, fs)
        ctx.expect(ok, 'order:range', i.where, 'a length is visited that is not known to lie between 0 and the greatest length of the table')
    ctx.require(n, 'the visiting order adds no length')
    ctx.count('lengths added to the visiting order', n)


def unfold(s, fs):
    """facts about conditional values resolved into cases"""
    for k, f in enumerate(fs):
        for x in subterms(f):
            if x.op == 'sel' and x.args[0].isbool:
                out = []
                for pos in (True, False):
                    g = rewrite(f, {x: x.args[1 if pos else 2]})
                    nf = fs[:k] + fs[k + 1:] + [g]
                    s.cond_facts(x.args[0], pos, nf)
                    if not contradiction(nf):
                        out += unfold(s, nf)
                return out
    return [fs]


# ------------------------------------------------------------------ table of lengths
KEEP_T = [r'^%s::' % LGS, r'^%s::' % GRP, r'^%s\(' % ORDER, TSKEEP]


def table_field(ctx):
    """offset of the table of lengths: the vector of group spaces of one length"""
    p = ctx.prog(plan([r'^%s::(getBestMatch|getKBestMatches)\(' % GGS], KEEP_T))
    offs = set()
    for f in p.funcs.values():
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        this = s.argByName['this']
        for i, v, k in index_calls(s):
            if 'LocalLengthGroupSpace*' in i.dem.split('::operator[]')[0].split('::front')[0]:
                r, o = ptr_parts(v)
                if r is this and not set(o) - {()}:
                    offs.add(o.get((), 0))
    ctx.require(len(offs) == 1, 'the search no longer uses one table of lengths')
    return p, offs.pop()


def table(ctx):
    p, off = table_field(ctx)
    ctx.require(len(p.funcs) == 2, 'the searches of the group space were not found')
    for f in p.funcs.values():
        search(ctx, p, f, off)
    # entries of the table are created for their position
    lib = ctx.prog(['index'] + plan([r'^%s::' % GGS, r' %s::(load|save|serialize)<' % GGS], [r'^%s::' % LGS, 'boost::', TSKEEP]))
    n = 0
    for f in lib.funcs.values():
        if not f.short.startswith(GGS + '::'):
            continue
        s = ctx.sym(f, lib, nogate=True, stable=stable_args)
        this = s.argByName.get('this')
        if this is None:
            continue
        T_ = ptr_add(this, {(): off} if off else {})
        mine = {i for i in f.instrs() if i.op == 'store' and ptr_parts(s.info[i.id]['ptr'])[0].op == 'elem'
                and ptr_parts(s.info[i.id]['ptr'])[0].args[0] is T_}
        if not any(True for i, v, k in index_calls(s) if v is T_) and not mine:
            continue
        for i in sorted(mine, key=lambda i: i.id):
            el = ptr_parts(s.info[i.id]['ptr'])[0]
            for v in api.alternatives(s, s.info[i.id]['val']):
                if v is NULL:
                    continue
                ctors = [j for j in f.instrs() if j.is_call and j.short == LGS + '::LocalLengthGroupSpace' and
                         s.info[j.id]['call'].this is v]
                ok = v.op == 'new' and len(ctors) == 1
                if ok:
                    c = s.info[ctors[0].id]['call']
                    L = [x for x, t in zip(c.params, c.ptypes) if t == 'int']
                    D = [x for x, t in zip(c.params, c.ptypes) if 'TimeSeriesSet' in t]
                    ok = len(L) == 1 and len(D) == 1 and L[0] is el.args[1]
                    ctx.expect(ok and own_dataset(s, D[0]), 'entry:dataset', i.where,
                               'groups are created for another dataset than the one of the group space')
                ctx.expect(ok, 'entry:length', i.where, 'the groups stored for a length were not created for that length')
                n += 1
        subs(ctx, s, f, T_)
    ctx.require(n >= 1, 'no entry of the table of lengths is created')
    ctx.count('places creating groups of one length', n)


def own_dataset(s, d):
    """d is the dataset this object refers to"""
    r, o = ptr_parts(d)
    if r.op == 'ld':
        q, _ = ptr_parts(r.args[0])
        return q is s.argByName.get('this') and not o
    return False


def subs(ctx, s, f, T_):
    """subscripts of the table outside the searches: in range or tested"""
    name = f.short.split('::')[-1]
    pr = Prover(s, maxlen_axiom(set_roles(ctx)))
    for i, v, k in index_calls(s):
        if v is not T_ or k is None:
            continue
        n = size_of(s, api.content_before(s, i, v))
        # a parameter of a helper is the caller's business (checked where it is inlined)
        if k.op == 'arg':
            ctx.assume('the length handed to %s lies inside the table; its callers are analysed with it inlined' % f.short)
            continue
        ok = all(pr.in_range(k, n, fs) for fs in ways(s, i.blk, 2)) or \
            all(pr.ge0(ts[0], list(ts[1:]) + list(fs))
                for ts, fs in split(s, [start(s, k)] + s.facts(i.blk), s.facts(i.blk))) and all(pr.lt(k, n, fs) for fs in ways(s, i.blk, 2))
        ctx.count('table subscripts')
        if name in ('getBestMatch', 'getKBestMatches'):
            continue
        ctx.expect(ok, 'table:%s' % name, i.where, 'position %s is not known to lie inside the table of lengths of size %s' % (k, n))


def start(s, k):
    """first value of a position that is only counted up"""
    if k.op == 'phi' and k in s.minc and 'entry' in s.minc[k]:
        inc = s.minc[k]
        ds = [padd(poly(v), poly(k), -1) for b, v in inc.items() if b != 'entry']
        if all(set(d) <= {()} and d.get((), 0) > 0 for d in ds):
            return inc['entry']
    return k


def maxlen_axiom(sr):
    """the greatest length of a dataset is never negative"""
    def ax(a):
        if a.op == 'ld' and a.args[1] == 'i32' and a.note and SET in a.note and \
                ptr_parts(a.args[0])[1].get((), 0) == sr.off['getMaxLength']:
            return [{(a,): -1}]
        return []
    return ax


def search(ctx, p, f, off):
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    name = f.short.split('::')[-1]
    this = s.argByName['this']
    T_ = ptr_add(this, {(): off} if off else {})
    orders = {}
    for i in f.instrs():
        if i.is_call and i.short == ORDER:
            orders[s.info[i.id]['call'].sret] = i
    ctx.require(orders, '%s no longer asks for a visiting order' % f.short)
    pr = Prover(s)
    # the order was made for this very table
    for i in orders.values():
        c = s.info[i.id]['call']
        n = size_of(s, api.content_before(s, i, T_))
        top = c.params[1]
        ctx.expect(pr.lt(top, n, s.facts(i.blk)), '%s:order' % name, i.where, 'the visiting order is made for more lengths than the table has')
    # vectors of recorded groups: filled only by the search of one length
    rec = set()
    for i in f.instrs():
        if i.is_call and i.short and i.short.startswith('std::vector::'):
            c = s.info[i.id]['call']
            if c.this is not None and 'group_index_t' in i.dem.split('::vector(')[0]:
                rec.add(c.this)
    for i in f.instrs():
        if not i.is_call:
            continue
        c = s.info[i.id].get('call')
        if c is not None and c.this in rec and not c.isctor and not c.isdtor:
            m = i.short.split('::')[-1]
            ctx.expect(m in ('empty', 'size', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'erase', 'operator[]', 'pop_back', 'clear',
                             'reserve', 'at'),
                       '%s:recorded' % name, i.where, 'a recorded group is added outside the search of one length')
    recorders = [i for i in f.instrs() if i.is_call and any(a in rec for a in s.info[i.id].get('args', []))
                 and (i.short or '').startswith(LGS + '::')]

    def from_order(i, k):
        """k was read from a visiting order"""
        if k.op == 'ld' and k.args[0].op == 'elem' and k.args[0].args[0] in orders:
            o = orders[k.args[0].args[0]]
            cur = api.content_before(s, i, k.args[0].args[0])
            return cur is s.peek(after(s, o), k.args[0].args[0], 'obj')
        return False

    fo = index_field(ctx)

    def accept(i, v, k):
        if v is T_ and k is not None:
            return from_order(i, k) or is_rec(k, 'length')
        return False

    def is_rec(k, which):
        if place(k) is None:
            return False
        r, o = ptr_parts(place(k))
        return r.op == 'elem' and r.args[0] in rec and set(o) <= {()} and o.get((), 0) == fo[which]

    subscripts(ctx, s, name, pr, accept)
    # use of an entry
    for i in f.instrs():
        if not i.is_call or not (i.short or '').startswith(LGS + '::'):
            continue
        c = s.info[i.id]['call']
        if c.this is None or c.this.op != 'ld':
            ctx.bad('%s:entry' % name, i.where, 'the groups of a length are not taken from the table')
            continue
        q = c.this.args[0]
        ctx.count('uses of table entries')
        ok = q.op == 'elem' and q.args[0] is T_
        ok = ok and (non_null(s, c.this, s.facts(i.blk)) or is_rec(q.args[1], 'length'))
        ctx.expect(ok, '%s:entry' % name, i.where, 'the groups of a length are used without a test that there are any')
        if i.short.endswith('::getGroup'):
            k = c.params[0]
            l = q.args[1] if q.op == 'elem' else NULL
            ctx.expect(is_rec(k, 'index') and is_rec(l, 'length') and ptr_parts(place(k))[0] is ptr_parts(place(l))[0],
                       '%s:group' % name, i.where, 'a group is looked up by a position that was not recorded together with its length')
    for i in f.instrs():
        if i.is_call and (i.short or '').startswith(GRP + '::'):
            c = s.info[i.id]['call']
            g = c.this
            ctx.count('uses of groups')
            ok = True
            for v in api.alternatives(s, g):
                fromget = v.op == 'ret' and any(j.short == LGS + '::getGroup' and s.vals[j.id] is v for j in f.instrs() if j.is_call)
                ok = ok and (fromget or non_null(s, v, s.facts(i.blk)) or non_null(s, g, s.facts(i.blk)))
            ctx.expect(ok, '%s:best' % name, i.where, 'a group is used without a test that one was found')
    only_own_exceptions(ctx, s, name)


def after(s, o):
    b = o.blk
    if o.op == 'invoke':
        return s.instate[o.get('succ')[0]]
    blk = s.fn.blocks[b].ins
    k = [n for n, j in enumerate(blk) if j.id == o.id][0]
    return api.state_before(s, blk[k + 1])


# ------------------------------------------------------------------ groups of one length
def index_field(ctx):
    """offsets of (length, index) in the record of a found group, from where the records are made"""
    p, f, s = interlevel(ctx)
    out = {}
    for el, k, st in records(ctx, s):
        for off, v in st.items():
            if v.op == 'ld' and ptr_parts(v.args[0])[0] is s.argByName['this']:
                out.setdefault('length', set()).add(off)
            elif k is not None and v is k:
                out.setdefault('index', set()).add(off)
    ctx.require(set(out) == {'length', 'index'}, 'the record of a found group was not understood')
    ctx.expect(all(len(v) == 1 for v in out.values()), 'recorded:same', f.where,
               'the length and the position of a found group are not always recorded in the same place')
    return {k: min(v) for k, v in out.items()}


def interlevel(ctx):
    nm = LGS + '::interLevelKSim'
    p = ctx.prog(plan([r'^%s::(interLevelKSim|getBestGroup|getGroup)\(' % LGS], [r'^%s::' % GRP, TSKEEP]))
    f = ctx.one(p, nm)
    return p, f, ctx.sym(f, p, nogate=True, stable=stable_args)


def records(ctx, s):
    """records pushed into the result vector: (push, loop position, {offset: value})"""
    f = s.fn
    vecs = [a for a in s.argT if a.args[2] == 'ptr']
    for i in f.instrs():
        if not i.is_call or i.short not in ('std::vector::push_back', 'std::vector::emplace_back'):
            continue
        c = s.info[i.id]['call']
        if c.this not in vecs:
            continue
        ctx.require(len(c.params) == 1, 'a record is built in place')
        src = c.params[0]
        st = {}
        for j in f.instrs():
            if j.op == 'store':
                r, o = ptr_parts(s.info[j.id]['ptr'])
                if r is ptr_parts(src)[0] and not set(o) - {()} and f.dominates(j.blk, i.blk):
                    st[o.get((), 0)] = s.info[j.id]['val']
        ks = [x.args[1] for v in st.values() for x in [grp_of(s, v)] if x is not None]
        yield i, ks[0] if ks and all(x is ks[0] for x in ks) else None, st


def grp_of(s, v):
    """table element the call producing v was made on"""
    for j in s.fn.instrs():
        if j.is_call and (j.short or '').startswith(GRP + '::') and s.vals.get(j.id) is v:
            t = s.info[j.id]['call'].this
            if t is not None and t.op == 'ld' and t.args[0].op == 'elem':
                return t.args[0]
    return None


def lengths(ctx):
    p, f, s = interlevel(ctx)
    pr = Prover(s)
    this = s.argByName['this']
    # the length a group space was created for
    q = ctx.prog(plan([r'^%s::LocalLengthGroupSpace\(' % LGS]))
    k = ctx.one(q, LGS + '::LocalLengthGroupSpace')
    sk = ctx.sym(k, q, nogate=True, stable=stable_args)
    L = [a for a in sk.argT if a.args[2] == 'i32']
    ctx.require(len(L) == 1, 'the groups of one length are no longer created for a length')
    loff = set()
    for r in rets(k):
        for (ptr, ty) in sk.universe:
            rt, o = ptr_parts(ptr)
            if rt is sk.argByName['this'] and not set(o) - {()} and sk.peek(sk.outstate[r.blk], ptr, 'i32') is L[0]:
                loff.add(o.get((), 0))
    ctx.require(len(loff) == 1, 'the length of the groups is not kept in one field')
    n = 0
    for i, pos, st in records(ctx, s):
        n += 1
        lens = [v for v in st.values() if v.op == 'ld' and ptr_parts(v.args[0])[0] is this]
        ok = len(lens) == 1 and ptr_parts(lens[0].args[0])[1].get((), 0) in loff
        ctx.expect(ok, 'recorded:length', i.where, 'a group is recorded under another length than its own')
        ctx.expect(pos is not None and any(v is pos for v in st.values()), 'recorded:index', i.where,
                   'a group is recorded under another position than its own')
    ctx.require(n >= 1, 'no group is recorded')
    ctx.count('records of found groups', n)
    for g in p.funcs.values():
        sg = ctx.sym(g, p, nogate=True, stable=stable_args)
        name = g.short.split('::')[-1]
        prg = Prover(sg)
        vecs = {a for a in sg.argT if a.args[2] == 'ptr' and a.args[1] != 'this'}

        def heap(i, v, k):
            # first element of the recorded groups when k of them are held
            return k is None and v in vecs
        subscripts(ctx, sg, name, prg, heap)
        if any(heap(i, v, k) for i, v, k in index_calls(sg)):
            conservation(ctx, sg, name, vecs)
        only_own_exceptions(ctx, sg, name)
    # the best group is one of the table or none
    g = ctx.one(p, LGS + '::getBestGroup')
    sg = ctx.sym(g, p, nogate=True, stable=stable_args)
    for r in rets(g):
        v = sg.val(r.ops[0])
        grp = dict(v.args[0]).get(0) if v.op == 'agg' else v
        for x in loop_values(sg, grp):
            ctx.expect(x is NULL or x.op == 'ld' and x.args[0].op == 'elem' and root_of(x.args[0]) is sg.argByName['this'],
                       'getBestGroup:result', r.where, 'the best group is not one of the groups of this length: %s' % x)


def loop_values(s, v, seen=None):
    seen = set() if seen is None else seen
    if v in seen:
        return set()
    seen.add(v)
    if v.op == 'phi' and v in s.minc:
        return set().union(*[loop_values(s, x, seen) for x in s.minc[v].values()])
    if v.op == 'sel':
        return loop_values(s, v.args[1], seen) | loop_values(s, v.args[2], seen)
    return {v}


def conservation(ctx, s, name, vecs):
    """first element of the recorded groups is looked at only when some are held.

    The number of further members wanted plus the members of the groups held is
    constant (it changes by what is put in or taken out, on every path), and it
    is positive at the start; so when no more are wanted a group is held.
    """
    f = s.fn
    ks = [a for a in s.argT if a.args[2] == 'i32']
    ctx.require(len(ks) == 1, '%s no longer takes one count' % name)
    heads = sorted(f.loops)
    same = congruent(s)

    def moves(b, upto=None):
        """change the wanted number must have undergone by the operations of block b"""
        d = {}
        for i in f.blocks[b].ins:
            if upto is not None and i.id == upto.id:
                break
            if not i.is_call or not (i.short or '').startswith('std::vector::'):
                continue
            c = s.info[i.id]['call']
            if c.this not in vecs:
                continue
            m = i.short.split('::')[-1]
            if m in ('push_back', 'emplace_back'):
                rec = [st for j, pos, st in records(ctx, s) if j.id == i.id]
                cnt = [v for v in rec[0].values() if count_call(s, v)]
                if len(cnt) != 1:
                    return None
                d = padd(d, poly(cnt[0]), -1)
            elif m == 'pop_back':
                fm = front_members(ctx, s, i)
                if fm is None:
                    return None
                d = padd(d, poly(rewrite(fm, same)))
            elif m in ('begin', 'end', 'front', 'size', 'empty', 'back', 'operator[]', 'cbegin', 'cend'):
                pass
            else:
                return None
        return d

    ph = {}
    for h in heads:
        c = [a for a, inc in s.minc.items() if a.op == 'phi' and a.args[0] == f.name and a.args[1] == h and 'entry' in inc
             and a.args[2][0] == 'r']
        ph[h] = c
    # guess: the phis derived from the count
    changed = True
    bal = {None: ks[0]}
    while changed:
        changed = False
        for h in heads:
            if h in bal:
                continue
            for a in ph[h]:
                ok = True
                for start in [None] + [x for x in bal if x is not None] + [h]:
                    b0 = 0 if start is None else start
                    base = ks[0] if start is None else (a if start == h else bal[start])
                    for pred in f.blocks[h].preds:
                        ds = paths_to_edge(f, b0, pred, h, moves, start == h or start is not None)
                        if ds is None:
                            ok = False
                            break
                        if not ds:
                            continue
                        v = inc_at(s, a, pred)
                        for d, path in ds:
                            want = rewrite(mkpoly(padd(poly(base), d)), same)
                            vv = rewrite(resolve(s, v, path), same)
                            if vv is not want:
                                ok = False
                    if not ok:
                        break
                if ok:
                    bal[h] = a
                    changed = True
                    break
    member_count(ctx)
    counts = {s.vals[j.id] for j in f.instrs() if j.is_call and j.short == GRP + '::getCount'}

    def cnt(a):
        return [{(a,): -1}] if a in counts else []
    for i, v, k in index_calls(s):
        if k is not None or v not in vecs or i.short.endswith('pop_back'):
            continue
        hs = [h for h in heads if i.blk in f.loops[h]]
        inner = min(hs, key=lambda h: len(f.loops[h])) if hs else None
        ok = False
        if inner in bal:
            ok = True
            for d, path in paths_to_edge(f, inner if inner is not None else 0, None, i.blk, moves, True, i) or [(None, None)]:
                if d is None:
                    ok = False
                    break
                cur = padd(poly(bal[inner]), d)
                ok = ok and Prover(s, cnt).prove(cur, [rewrite(x, same) for x in s.facts(i.blk)] + bal_facts(s, bal, inner, cnt, same))
        ctx.expect(ok, '%s:first' % name, i.where, 'the first recorded group is looked at although none may be held')
    ctx.assume('the number of results asked for is positive when the search of one length starts (decided by the k-best check)')


def member_count(ctx):
    """the number of members of a group starts at zero and is only counted up"""
    r = Roles(ctx, GRP, ['getCount'])
    p = ctx.prog(plan([r'^%s::' % GRP], [r'^%s::' % SET, TSKEEP]))
    n = 0
    for f in p.funcs.values():
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        this = s.argByName.get('this')
        if this is None or not f.short.startswith(GRP + '::'):
            continue
        F = r.at(this, 'getCount')
        for i in f.instrs():
            if i.op == 'store' and s.info[i.id]['ptr'] is F:
                old = s.peek(api.state_before(s, i), F, 'i32')
                d = padd(poly(s.info[i.id]['val']), poly(old), -1)
                up = set(d) <= {()} and d.get((), 0) >= 0
                v = s.info[i.id]['val']
                ctx.expect(up or v.op == 'int' and v.args[0] >= 0, 'count:%s' % f.short.split('::')[-1], i.where,
                           'the number of members of a group is changed other than by counting up from zero')
                n += 1
    ctx.require(n, 'the number of members of a group is never set')


def bal_facts(s, bal, h, ax, same):
    """the wanted number is not positive inside a loop that only takes groups out again"""
    a = bal[h]
    if a not in s.minc:
        return []
    pr = Prover(s, ax)
    goal = {(a,): 1}
    inc = s.minc[a]
    f = s.fn
    ok = True
    for pb, v in inc.items():
        preds = [p for p in f.blocks[h].preds if p not in f.loops[h]] if pb == 'entry' else [pb]
        for p in preds:
            fs = edge(s, p, h)
            ok = ok and pr.prove(poly(rewrite(v, same)), [rewrite(x, same) for x in fs])
    return [le0(goal)] if ok else []


def inc_at(s, a, pred):
    inc = s.minc[a]
    return inc[pred] if pred in inc else inc['entry']


def resolve(s, v, path):
    """value v at the end of a path of blocks (merges resolved along the path)"""
    for _ in range(20):
        if v.op == 'phi' and v in s.minc and 'entry' not in s.minc[v] and v.args[1] in path:
            k = len(path) - 1 - path[::-1].index(v.args[1])
            if k == 0 or path[k - 1] not in s.minc[v]:
                return v
            v = s.minc[v][path[k - 1]]
            continue
        if v.op == 'sel':
            fs = []
            for a, b in zip(path, path[1:]):
                fs += edge(s, a, b)
            if v.args[0] in fs:
                v = v.args[1]
                continue
            from gx.sym import neg_
            if neg_(v.args[0]) in fs:
                v = v.args[2]
                continue
        return v
    return v


def paths_to_edge(f, b0, pred, h, moves, skip_first_header, upto=None):
    """[(delta, path)] along header-free paths from b0 to the edge pred -> h (or to instruction upto in block h)"""
    out = []
    work = [((b0,), {})]
    n = 0
    while work:
        path, d = work.pop()
        n += 1
        if n > 3000:
            return None
        b = path[-1]
        if upto is not None and b == h:
            m = moves(b, upto)
            if m is None:
                return None
            out.append((padd(d, m), list(path)))
            continue
        if b in f.loops and len(path) > 1:
            continue
        m = moves(b)
        if m is None:
            return None
        nd = padd(d, m)
        for nx in f.blocks[b].succs:
            if upto is None and nx == h and b == pred:
                out.append((nd, list(path) + [nx]))
                continue
            work.append((path + (nx,), nd))
    return out


def count_call(s, v):
    return any(j.is_call and j.short == GRP + '::getCount' and s.vals.get(j.id) is v for j in s.fn.instrs())


def front_members(ctx, s, i):
    """members of the first recorded group just before it is taken out (pop_heap moves it to the end first)"""
    f = s.fn
    v = s.info[i.id]['call'].this
    heap = [j for j in f.blocks[i.blk].ins if j.is_call and (j.short or '') == 'std::pop_heap' and j.id < i.id]
    if not heap:
        return None
    offs = {o.get((), 0) for j, pos, st in records(ctx, s) for o, x in [({(): k}, y) for k, y in st.items()] if count_call(s, x)}
    if len(offs) != 1:
        return None
    return s.peek(api.state_before(s, heap[-1]), ptr_add(mk('elem', v, const(0)), {(): offs.pop()}), 'i32')


# ------------------------------------------------------------------ one group
def group(ctx):
    p = ctx.prog(plan([r'^%s::(getBestMatch|intraGroupKSim|getMembers|distanceFromCentroid)\(' % GRP],
                      [r'^%s::' % SET, TSKEEP]))
    for f in p.funcs.values():
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        name = f.short.split('::')[-1]
        if name == 'distanceFromCentroid':
            continue
        pr = Prover(s)
        # reads of the member table: the coordinates were handed to the dataset just before
        gets = [i for i in f.instrs() if i.is_call and i.short == SET + '::getTimeSeries']
        ctx.require(gets, '%s no longer asks the dataset for the members' % f.short)
        for i in gets:
            ctx.expect(own_dataset(s, s.info[i.id]['call'].this), '%s:dataset' % name, i.where,
                       'the members are not taken from the dataset of the group')

        def checked(i, v, k):
            if k is None:
                return 'candidate_time_series_t' in i.dem    # decided by the k-best check
            if 'group_membership_t' not in i.dem:
                return False
            for g in gets:
                c = s.info[g.id]['call']
                x, y = c.params[0], c.params[1]
                if not (f.dominates(g.blk, i.blk) and g.blk != i.blk or g.blk == i.blk and g.id < i.id):
                    continue
                # position = index * row + start
                r = padd(poly(k), poly(y), -1)
                r = {m: cc for m, cc in r.items() if cc}
                if len(r) == 1:
                    (m, cc), = r.items()
                    if cc == 1 and len(m) == 2 and x in m:
                        row = m[0] if m[1] is x else m[1]
                        if row.op == 'ld' and ptr_parts(row.args[0])[0] is s.argByName['this']:
                            return True
            return False
        subscripts(ctx, s, name, pr, checked)
        only_own_exceptions(ctx, s, name)
    # the answer of the best-member search
    f = ctx.one(p, GRP + '::getBestMatch')
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    sret = s.argByName['sret']
    fills = [i for i in f.instrs() if i.is_call and i.short in (TS + '::TimeSeries', TS + '::operator=') and s.info[i.id]['call'].this is sret]
    ctx.require(fills, 'the best-member search returns no series')
    for r in rets(f):
        ctx.expect(not api.reaches_without(s, r, fills), 'getBestMatch:answer', r.where, 'an answer is returned that holds no series')
    for i in fills:
        src = s.info[i.id]['call'].params[0] if s.info[i.id]['call'].params else None
        ok = src is not None and any(g.is_call and g.short == SET + '::getTimeSeries' and s.info[g.id]['call'].sret is src and
                                     not api.reaches_without(s, i, [g]) for g in f.instrs() if g.is_call and g.short)
        ctx.expect(ok, 'getBestMatch:answer', i.where, 'the answer is not a series fetched from the dataset')


# ------------------------------------------------------------------ envelopes
def envelope(ctx):
    p = ctx.prog(plan([r'^genex::keoghLowerBound\('], [TSKEEP]))
    f = ctx.one(p, 'genex::keoghLowerBound')
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    ts = ts_roles(ctx)
    pr = Prover(s, length_axiom(ts))
    env = {}
    for i in f.instrs():
        if i.is_call and (i.short or '').startswith(TS + '::getKeogh'):
            env[s.vals[i.id]] = s.info[i.id]['call'].this
    ctx.require(env, 'the lower bound no longer uses envelopes')
    n = 0
    for i in f.instrs():
        if i.op != 'load':
            continue
        q = s.info[i.id]['ptr']
        r, o = ptr_parts(q)
        if r not in env:
            continue
        L = mk('ld', ts.at(env[r], 'getLength'), 'i32', ())
        L = s.peek(api.state_before(s, i), ts.at(env[r], 'getLength'), 'i32')
        fs = s.facts(i.blk)
        lim = padd(o, {m: 8 * c for m, c in poly(L).items()}, -1)
        ok = pr.prove({m: -c for m, c in o.items()}, fs) and pr.prove(padd(lim, {(): 8}), fs)
        ctx.expect(ok, 'envelope', i.where, 'an envelope is read outside the length of its series')
        n += 1
    ctx.require(n, 'no envelope is read')
    ctx.count('envelope reads', n)


# ------------------------------------------------------------------ refusals
def refused(ctx):
    from checks.c21 import null_field, non_null as has
    p = ctx.prog(plan([r'^%s::(getBestMatch|getKBestMatches|isGrouped)\(' % GSET], [r'^%s::' % GGS, TSKEEP]))
    off = null_field(ctx, p, GSET + '::isGrouped')
    for nm in ('getBestMatch', 'getKBestMatches'):
        f = ctx.one(p, GSET + '::' + nm)
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        calls = [i for i in f.instrs() if i.is_call and (i.short or '').startswith(GGS + '::') and '~' not in i.short]
        ctx.require(calls, '%s no longer searches groups' % f.short)
        F = ptr_add(s.argByName['this'], {(): off} if off else {})
        for i in calls:
            ctx.expect(s.info[i.id]['call'].this is mk('ld', F, 'ptr', ()) and has(s.facts(i.blk), off), '%s:grouped' % nm, i.where,
                       'groups are searched without a test that the dataset is grouped')
        for r in rets(f):
            for fs in ways(s, r.blk):
                ctx.expect(has(fs, off), '%s:refused' % nm, r.where, 'a dataset that is not grouped is answered instead of refused')
        only_own_exceptions(ctx, s, nm)


def paa(ctx):
    """prepared block averages: searched only when present, kept only when complete"""
    n = 0
    f = api.method(ctx, 'getKBestMatchesPAA')
    s = api.sym(ctx, f)
    pres = api.Presence(s)
    for i in f.instrs():
        if i.is_call and i.short == 'genex::PAAWrapper::getKBestMatchesPAA':
            sl = api.slot_of(s.info[i.id]['call'].this)
            n += 1
            ok = sl is not None and pres.present(i.blk, api.content_before(s, i, sl[0]), sl[1])
            ctx.expect(ok, 'paa:prepared', i.where, 'block averages are searched without a test that they were prepared')
    ctx.require(n, 'the search on block averages was not found')
    f = api.method(ctx, 'preparePAA')
    s = api.sym(ctx, f)
    n = 0
    for i in f.instrs():
        if i.op != 'store':
            continue
        q = ptr_parts(s.info[i.id]['ptr'])[0]
        if q.op != 'node':
            continue
        for v in api.alternatives(s, s.info[i.id]['val']):
            if v is NULL:
                continue
            n += 1
            gens = [j for j in f.instrs() if j.is_call and j.short == 'genex::PAAWrapper::generatePAAMatrix' and
                    v in api.alternatives(s, s.info[j.id]['call'].this)]
            ctx.expect(bool(gens) and not api.reaches_without(s, i, gens), 'paa:complete', i.where,
                       'block averages are kept under the name before they are complete')
    ctx.require(n, 'prepared block averages are not kept')
