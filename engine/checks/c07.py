"""Grouping puts every subsequence into exactly one group of its length.

 * The lengths grouped, with or without threads, are the range from two (or only the longest length, if whole series are
   asked for) up to the longest length; every length is worked on exactly once, in its own slot, with the distance and threshold asked for.
 * For one length, the loops around the place where a member is added count over all series and all starts; every
   iteration adds exactly one member, the subsequence of its own series and start, unless the subsequence would not fit.
 * The group is chosen by a best-so-far loop over all groups of the length, with the distance between the subsequence and the
   representative; it is used only where the conditions on the path say that one was found and that its distance is within half the threshold, and a new
   group, entered at its own number and with the subsequence as representative, is used only where they say the contrary.
 * Adding a member enters it in the table at its own place, with the number of the group, links it to the members before and counts it.
 * The number returned is the number of groups kept, and the total is the sum of these.
"""
from gx import api
from gx.lib import *
from gx.loops import ranges, loops_of, iter_skips, again
from gx.walk import iterations
from gx.members import Links, field
from gx.models import size_of
from gx.sym import fcmp, neg_
from gx.kbest import INF
from gx.terms import subterms
from checks import c09, c14

RULE = 'range and exactly-once analysis of the grouping loops; best-so-far rule; path conditions of joining and founding; layout of the member table'
TWO, HALF = mk('fconst', '2'), mk('fconst', '0.5')
ADD, CENT, DIST = GRP + '::addMember', GRP + '::setCentroid', GRP + '::distanceFromCentroid'


def run(ctx):
    lengths(ctx)
    S = space(ctx)
    generate(ctx, S)
    members(ctx)
    c14.representative(ctx)
    c14.chain(ctx)


# ------------------------------------------------------------------ lengths
def lengths(ctx):
    keep = [r'(^| )%s::' % c09.POOL, '^%s::' % LGS, r'^genex::(getDistanceFromName|TimeSeriesSet::)']
    p = ctx.prog(['index'] + plan(['^%s::' % GGS], keep))
    par = [f for f in p.funcs.values() if f.short.startswith(GGS + '::') and any(i.is_call and i.short == c09.POOL + '::' + c09.POOL for i in f.instrs())]
    seq = [f for f in p.funcs.values() if f.short.startswith(GGS + '::') and f not in par
           and any(i.is_call and i.short == c09.WORK and loops_of(f, i.blk) for i in f.instrs())]
    ctx.require(len(seq) == 1, 'there is not one function that groups without a pool')
    for f in seq:
        s = ctx.sym(f, p, nogate=True)
        g = [i for i in f.instrs() if i.is_call and i.short == c09.WORK][0]
        h = loops_of(f, g.blk)[0]
        rs = [r for r in ranges(s, h) if abs(r.step) == 1 and not r.early]
        if ctx.expect(rs, 'lengths', g.where, 'the lengths grouped are not a range'):
            W = c09.work(ctx, s, c09.This(s, rs[0].atom), h)
            covered(ctx, s, rs[0], g)
            if W:
                inputs(ctx, s, W, g)
            c09.total(ctx, s, h, s.vals[g.id], g)
    for f in par:
        enq = [i for i in f.instrs() if i.is_call and i.short == c09.POOL + '::enqueue']
        ctx.require(enq, 'nothing is submitted to the pool')
        M = c09.Main(ctx, p, f, enq)
        if M.r is None:
            continue
        covered(ctx, M.s, M.r, enq[0])
        cap = M.captured()
        import re
        m = re.search(r'%s::enqueue<(.*)>\(' % c09.POOL, enq[0].dem)
        lam = m.group(1)[:c09.depth_cut(m.group(1))] if m else ''
        small = [p.funcs[n] for n, x in p.index.items() if x['dem'].startswith(lam + '::operator()') and n in p.funcs]
        ctx.require(len(small) == 1, 'what is submitted to the pool is not a function object of this repository')
        S = ctx.sym(small[0], p, nogate=True, stable=stable_args)
        W = c09.work(ctx, S, c09.Own(ctx, S, cap), None)
        if W:
            inputs(ctx, M.s, W, enq[0])
            for r in rets(small[0]):
                ctx.expect(S.val(r.ops[0]) is S.vals[W['call'].id], 'sum', r.where, 'the result of a task is not the number of groups generated')
        M.results()


def covered(ctx, s, r, at):
    """two up to the longest length, or only the longest"""
    f = s.fn
    d = poly(r.hi)
    top = mkpoly(padd(d, {(): -1}))
    j = f.by_id.get(top.args[1]) if top.op == 'ret' else None
    ctx.expect(j is not None and j.short == SET + '::getMaxLength', 'lengths-end', at.where, 'the last length grouped is not the longest length of the dataset')
    flag = [a for a in s.argT if a.args[2] in ('i1', 'i8')]
    ctx.require(len(flag) == 1, 'grouping no longer takes the choice of whole series')
    cases = []
    lo = r.lo
    if lo.op == 'phi' and lo in s.minc:
        b = lo.args[1]
        for q, v in s.minc[lo].items():
            cases.append((v, list(s.facts(q)) + edge(s, q, b)))
    elif lo.op == 'sel':
        a, b = [], []
        s.cond_facts(lo.args[0], True, a)
        s.cond_facts(lo.args[0], False, b)
        cases = [(lo.args[1], a), (lo.args[2], b)]
    ok = len(cases) == 2
    for v, fs in cases:
        whole = on(flag[0], fs)
        ok = ok and whole is not None and v is (top if whole else const(2))
    ctx.expect(ok, 'lengths-start', at.where, 'the lengths grouped do not start at two, or at the longest if only whole series are asked for')


def on(flag, fs):
    for x in fs:
        neg = x.op == 'not'
        y = x.args[0] if neg else x
        if y is flag:
            return not neg
        if y.op == 'eq0' and list(subterms(y)) and any(z is flag for z in subterms(y)) and not any(
                isinstance(z, T) and z.op in ('ret', 'ld', 'phi') for z in subterms(y)):
            return neg
    return None


def inputs(ctx, s, W, at):
    """the settings the groups are generated from are those asked for"""
    own = c09.This(s, None)
    dbl = [a for a in s.argT if a.args[2] == 'double']
    name = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] not in ('this', 'sret')]
    ctx.require(len(dbl) == 1 and len(name) >= 1, 'grouping no longer takes one threshold and one distance name')
    _, dist, thr = W['in']
    n = 0
    for i in s.fn.instrs():
        if i.op != 'store':
            continue
        o, v = own.field(s.info[i.id]['ptr']), s.info[i.id]['val']
        if o == thr:
            n += 1
            ctx.expect(v is dbl[0], 'threshold', i.where, 'the groups are generated with another threshold than the one asked for')
        elif o == dist:
            n += 1
            j = s.fn.by_id.get(v.args[1]) if v.op == 'ret' else None
            ctx.expect(j is not None and j.short == 'genex::getDistanceFromName' and same_name(s, s.info[j.id]['args'][-1], name[0], j), 'distance', i.where,
                       'the groups are generated with another distance than the one asked for')
    ctx.expect(n >= 2, 'inputs', at.where, 'distance or threshold are not taken over')


def same_name(s, x, name, at):
    return x is name or str(s.peek(api.state_before(s, at), x, 'obj')) == str(s.peek(api.state_before(s, at), name, 'obj'))


# ------------------------------------------------------------------ one length
def space(ctx):
    """fields of the space of one length: {role: offset}"""
    cls = LGS.split('::')[-1]
    p = ctx.prog(plan([r'^%s::%s\(' % (LGS, cls)], ['^%s::' % SET]))
    f = ctx.one(p, LGS + '::' + cls)
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    this = s.argByName['this']
    ln = [a for a in s.argT if a.args[2] == 'i32']
    ds = [a for a in s.argT if a.args[2] == 'ptr' and a is not this]
    ctx.require(len(ln) == 1 and len(ds) == 1, 'the groups of a length are no longer made for a dataset and a length')
    S = {}

    def offs(i):
        r, o = ptr_parts(s.info[i.id]['ptr'])
        return o.get((), 0) if r is this and not set(o) - {()} else None
    mx = None
    for i in f.instrs():
        if i.op == 'store' and offs(i) is not None:
            v = s.info[i.id]['val']
            if v is ln[0]:
                S['length'] = offs(i)
            elif v is ds[0]:
                S['dataset'] = offs(i)
            elif i.get('sty') == 'i32':
                d = add(add(v, ln[0]), const(-1))
                j = f.by_id.get(d.args[1]) if d.op == 'ret' else None
                if ctx.expect(j is not None and j.short == SET + '::getMaxLength' and s.info[j.id]['args'][0] is ds[0], 'starts', i.where,
                              'the number of starts of a length is not the longest length minus the length plus one'):
                    S['sub'] = offs(i)
                    mx = v
    ctx.require('length' in S and 'dataset' in S, 'length or dataset of the groups of a length are not kept')
    if 'sub' in S:
        # the table has a place for every start of every series
        for r in rets(f):
            ok = False
            for i in f.instrs():
                a = s.info.get(i.id, {}).get('args') or []
                if i.is_call and a and isinstance(a[0], T) and ptr_parts(a[0])[0] is this and 'group_membership_t' in (i.dem or ''):
                    n = size_of(s, s.peek(s.outstate[r.blk], a[0], 'obj'))
                    for j in f.instrs():
                        if j.is_call and j.short == SET + '::getItemCount' and s.info[j.id]['args'][0] is ds[0]:
                            if n is mkpoly(mul(poly(s.vals[j.id]), poly(mx))):
                                ok = True
                                S['table'] = ptr_parts(a[0])[1].get((), 0)
            ctx.expect(ok, 'table', r.where, 'the table of members does not have a place for every start of every series')
    return S


def mul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=lambda t: t.uid))
            out[k] = out.get(k, 0) + c * d
    return out


def generate(ctx, S):
    p = ctx.prog(plan([r'^%s\(' % c09.WORK], [r'^%s::' % GRP, r'^%s::' % SET, r'^%s::' % TS]))
    f = ctx.one(p, c09.WORK)
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    this = s.argByName['this']
    fn = [a for a in s.argT if a.args[2] == 'ptr' and a is not this]
    thr = [a for a in s.argT if a.args[2] == 'double']
    ctx.require(len(fn) == 1 and len(thr) == 1, 'groups are no longer generated with a distance and a threshold')
    fn, thr = fn[0], thr[0]
    fld = lambda t, role: role in S and field(t) == (this, S[role])
    adds = [i for i in f.instrs() if i.is_call and i.short == ADD]
    ctx.require(adds, 'no member is added when groups are generated')
    ls = loops_of(f, adds[0].blk)
    if not ctx.expect(len(ls) == 2 and all(loops_of(f, i.blk) == ls for i in adds), 'coverage', adds[0].where,
                      'members are not added in one loop over the series and one over the starts'):
        return
    out, inn = ls

    def isret(t, what, *a):
        j = f.by_id.get(t.args[1]) if t.op == 'ret' else None
        if j is None or j.short != SET + '::' + what:
            return False
        b = s.info[j.id]['args']
        return fld(b[0], 'dataset') and list(b[1:]) == list(a)
    # ranges
    idx = start = None
    for h in ls:
        for r in ranges(s, h):
            if r.lo is const(0) and abs(r.step) == 1 and not r.early:
                if isret(r.hi, 'getItemCount'):
                    idx = (h, r.atom)
    for h in ls:
        for r in ranges(s, h):
            if r.lo is const(0) and abs(r.step) == 1 and not r.early and idx is not None:
                ext = [m[0] for m, c in poly(r.hi).items() if c == 1 and len(m) == 1 and isret(m[0], 'getItemLength', idx[1])]
                rest = add(add(r.hi, ext[0], -1), const(-1)) if ext else None
                if fld(r.hi, 'sub') or ext and h == inn and fld(mkpoly({m: -c for m, c in poly(rest).items()}), 'length'):
                    start = (h, r.atom)
    ok = idx is not None and start is not None and idx[0] != start[0]
    if not ctx.expect(ok, 'coverage', adds[0].where, 'the loops around the adding of members do not count over all series and all starts'):
        return
    I, J = idx[1], start[1]
    first = [f.blocks[inn].ins[0]]
    ctx.expect(not iter_skips(s, out, first), 'coverage', adds[0].where, 'a series or a start may be left out')

    # nearest group
    asks = [i for i in f.instrs() if i.is_call and i.short == DIST]
    ctx.require(asks, 'no distances to the groups are computed')
    hs = {loops_of(f, i.blk)[-1] for i in asks}
    if not ctx.expect(len(hs) == 1 and not hs & set(ls), 'nearest', asks[0].where, 'the groups are not compared in a loop of their own'):
        return
    h = hs.pop()
    cands, groups, tabs = {}, {}, set()
    for i in asks:
        a = s.info[i.id]['args']
        el = place(a[0])
        ok = el is not None and el.op == 'elem' and ptr_parts(el.args[0])[0] is this
        if ok:
            tabs.add(el.args[0])
            groups[i.id] = (s.vals[i.id], [a[0]])
            cands[i.id] = (s.vals[i.id], [el.args[1]])
        src = [g for g in f.instrs() if g.is_call and g.short == SET + '::getTimeSeries' and s.info[g.id]['args'][0] is a[1]]
        ok = ok and a[2] is fn and len(src) == 1
        if ok:
            b = s.info[src[0].id]['args']
            ok = fld(b[1], 'dataset') and b[2] is I and b[3] is J and fld(add(b[4], J, -1), 'length') and f.dominates(src[0].blk, i.blk) and inn in loops_of(f, src[0].blk)
        ctx.expect(ok, 'nearest-asked', i.where, 'the distance computed is not that between the subsequence and a group of this length')
    if not ctx.expect(len(tabs) == 1, 'nearest', asks[0].where, 'the groups compared are not those of the length'):
        return
    G = tabs.pop()
    ks = [r.atom for r in ranges(s, h) if r.lo is const(0) and abs(r.step) == 1 and not r.early and r.hi is size_of(s, s.peek(s.instate[h], G, 'obj'))]
    ctx.expect(any(all(k is c[1][0] for c in cands.values()) for k in ks), 'nearest-every', asks[0].where, 'not every group of the length is compared')

    its = iterations(s, inn)
    ctx.count('ways through one step of the grouping', len(its))
    nj = nf = 0
    used = set()
    for w, b in its:
        here = [i for i in w.instrs() if i.is_call and i.short == ADD]
        if not here:
            ok = doesnt_fit(s, w, I, J, isret, fld)
            ctx.expect(ok, 'exactly-once', f.blocks[b].term.where, 'a subsequence that fits into its series is not added to any group')
            continue
        i = here[0]
        a = s.info[i.id]['args']
        ctx.expect(len(here) == 1, 'exactly-once', i.where, 'a subsequence is added to more than one group')
        ctx.expect(w.val(a[1]) is I and w.val(a[2]) is J, 'own', i.where, 'the member added is not the subsequence at hand')
        g = w.val(a[0])
        mades = [j for j in w.instrs() if j.is_call and j.short == GRP + '::' + GRP.split('::')[-1]]
        if mades:
            nf += 1
            founds(ctx, s, w, i, g, mades, G, I, J, S, fld)
            D = [half(x, thr)[1] for x in w.fset if half(x, thr)[0] == 'far']
            K = [none_found(x) or absent(x) for x in w.fset if none_found(x) or absent(x) is not None and best(absent(x), h, s)]
            ctx.expect((D or K) and all(best(d, h, s) for d in D) and all(best(k, h, s) for k in K), 'founds', i.where,
                       'a new group is founded although a group within half the threshold was found')
            used |= set(D)
            continue
        nj += 1
        el = place(g)
        k = el.args[1] if el is not None and el.op == 'elem' and el.args[0] is G else None
        byptr = best(g, h, s)
        if byptr:
            # the nearest group is remembered itself, not its position
            k = g
        ok = k is not None and best(k, h, s)
        if not ctx.expect(ok, 'joins', i.where, 'the group joined is not the nearest one found'):
            continue
        near = [half(x, thr)[1] for x in w.fset if half(x, thr)[0] == 'near']
        ctx.expect(near and all(best(d, h, s) for d in near), 'joins-within', i.where, 'a group is joined that may lie beyond half the threshold')
        first = s.minc[k]['entry']
        ok = first.op == 'int' and first.args[0] == -1 and (le0({(k,): -1}) in w.fset or neg_(eq0({(k,): 1, (): 1})) in w.fset)
        if byptr:
            ok = first is NULL and any(absent(neg_(x)) is k for x in w.fset)
        ctx.expect(ok, 'joins-found', i.where, 'a group is joined although none may have been found')
        for D in set(near) | used:
            c14.best_loop(ctx, s, h, 'nearest', D, [k], groups if byptr else cands, lambda w: False, {INF})
            for j in asks:
                bd = s.info[j.id]['args'][3]
                ctx.expect(bd in (D, INF), 'nearest-bound', j.where, 'a group is compared under another bound than the best distance so far')
    ctx.expect(nj and nf, 'choice', adds[0].where, 'subsequences never join a group, or never found one')
    # result
    for r in rets(f):
        v = s.val(r.ops[0])
        n = size_of(s, s.peek(api.state_before(s, r), G, 'obj'))
        ctx.expect(v is n, 'number', r.where, 'the number reported is not the number of groups')
    # the groups are only changed by adding new ones
    for i in f.instrs():
        if i.is_call and i.short.startswith('std::vector::') and s.info[i.id]['args'][0] is G and not s.info[i.id]['call'].is_const:
            m = i.short.rsplit('::', 1)[-1]
            ctx.expect(m in ('push_back', 'emplace_back', 'operator[]', 'at', 'back', 'front', 'begin', 'end', 'reserve', 'data'), 'kept', i.where,
                       'the groups found so far are changed (%s)' % m)
        elif i.op == 'store' and s.info[i.id]['ptr'].op == 'elem' and s.info[i.id]['ptr'].args[0] is G:
            ctx.bad('kept', i.where, 'a group found before is replaced')


def best(t, h, s):
    return isinstance(t, T) and t.op == 'phi' and t.args[1] == h and t in s.minc


def absent(x):
    """the pointer the condition finds to be null"""
    if x.op == 'peq' and NULL in x.args:
        return [y for y in x.args if y is not NULL][0] if any(y is not NULL for y in x.args) else None
    return None


def half(x, thr):
    """('near'|'far', distance) if the condition compares a distance with half the threshold"""
    hs = [mk('fdiv', thr, TWO), mk('fmul', thr, HALF), mk('fmul', HALF, thr)]
    neg = x.op == 'not'
    y = x.args[0] if neg else x
    if y.op != 'fcmp':
        return None, None
    pred, a, b = y.args
    if a in hs and not b in hs:
        # half < d : far ; half <= d alone does not say
        if pred in ('olt', 'ult'):
            return ('near' if neg else 'far'), b
    if b in hs and not a in hs:
        if pred in ('ole', 'ule'):
            return ('far' if neg else 'near'), a
    for p, d, side in ((a, b, 0), (b, a, 1)):
        if p is thr and d.op == 'fmul' and TWO in d.args:
            D = d.args[0] if d.args[1] is TWO else d.args[1]
            if side == 0 and pred in ('olt', 'ult'):
                return ('near' if neg else 'far'), D
            if side == 1 and pred in ('ole', 'ule'):
                return ('far' if neg else 'near'), D
    return None, None


def none_found(x):
    """the number of the best group if the condition says there is none"""
    if x.op == 'le0':
        d = poly(x.args[0])
        if len(d) == 2 and d.get(()) == 1:
            (m, c), = [(m, c) for m, c in d.items() if m]
            return m[0] if c == 1 and len(m) == 1 else None
    if x.op == 'eq0':
        d = poly(x.args[0])
        if len(d) == 2 and abs(d.get((), 0)) == 1:
            (m, c), = [(m, c) for m, c in d.items() if m]
            return m[0] if c == d[()] and len(m) == 1 else None
    return None


def doesnt_fit(s, w, I, J, isret, fld):
    """start + length > length of the series"""
    for x in w.fset:
        if x.op != 'le0':
            continue
        d = poly(x.args[0])
        n = [m for m, c in d.items() if c == 1 and len(m) == 1 and isret(m[0], 'getItemLength', I)]
        ln = [m for m, c in d.items() if c == -1 and len(m) == 1 and fld(m[0], 'length')]
        if len(n) == 1 and len(ln) == 1 and d.get((J,)) == -1 and d.get(()) == 1 and len(d) == 4:
            return True
    return False


def founds(ctx, s, w, at, g, mades, G, I, J, S, fld):
    f = s.fn
    ctx.expect(len(mades) == 1, 'founds-one', at.where, 'more than one group is made for a subsequence')
    m = mades[0]
    obj = s.info[m.id]['args'][0]
    push = [j for j in w.instrs() if j.is_call and j.short in ('std::vector::push_back', 'std::vector::emplace_back') and s.info[j.id]['args'][0] is G]
    if not ctx.expect(obj.op == 'new' and len(push) == 1, 'founds-kept', m.where, 'the group founded is not kept exactly once'):
        return
    st = api.state_before(s, push[0])
    v = s.peek(st, s.info[push[0].id]['args'][1], 'ptr')
    ctx.expect(w.val(v) is obj, 'founds-kept', push[0].where, 'something other than the group founded is kept')
    n = size_of(s, s.peek(st, G, 'obj'))

    def isnew(t):
        t = w.val(t)
        el = place(t)
        return t is obj or el is not None and el.op == 'elem' and el.args[0] is G and (el.args[1] is n or w.val(el.args[1]) is w.val(n))
    ctx.expect(isnew(g), 'founds-joined', at.where, 'the subsequence is not added to the group it founded')
    cs = [j for j in w.instrs() if j.is_call and j.short == CENT]
    ok = len(cs) == 1
    if ok:
        b = s.info[cs[0].id]['args']
        ok = isnew(b[0]) and w.val(b[1]) is I and w.val(b[2]) is J
    ctx.expect(ok, 'founds-represented', at.where, 'the subsequence does not become the representative of the group it founded')
    # what the group is made with
    L = layout(ctx)
    a = s.info[m.id]['args']
    for role, k in L.items():
        x = w.val(a[k])
        if role == 'number':
            ok = x is w.val(n) or x is n
        elif role == 'table':
            ok = ptr_parts(x) == (s.argByName['this'], {(): S['table']}) if 'table' in S else False
        else:
            ok = fld(x, role)
        ctx.expect(ok, 'founds-with', m.where, 'the group founded is not made with its own %s' % role)


def layout(ctx):
    """roles of the arguments of a new group"""
    lk = Links(ctx)
    p = ctx.prog(plan([r'^%s::%s\(' % (GRP, GRP.split('::')[-1])], ['^%s::' % SET, '^%s::' % TS]))
    g = ctx.one(p, GRP + '::' + GRP.split('::')[-1])
    s = ctx.sym(g, p, nogate=True, stable=stable_args)
    this = s.argByName['this']
    num = number(ctx, lk)
    args = list(s.argT)
    out = {}
    ln, ds = centroid(ctx)
    want = {'number': num, 'length': ln, 'sub': lk.row_off, 'table': lk.table_off, 'dataset': ds}
    for i in g.instrs():
        if i.op == 'store':
            r, o = ptr_parts(s.info[i.id]['ptr'])
            if r is this and not set(o) - {()}:
                for role, off in want.items():
                    if off is not None and o.get((), 0) == off and s.info[i.id]['val'] in args:
                        out[role] = args.index(s.info[i.id]['val'])
    missing = set(want) - set(out)
    ctx.expect(not missing, 'founds-with', g.where, 'a new group does not take over its %s' % ', '.join(sorted(missing)))
    return out


def number(ctx, lk):
    """field of a group entered in the table as its number"""
    s = lk.s
    offs = set()
    for i, q, v in lk.entries:
        o = ptr_parts(q)[1].get((), 0)
        if o in (lk.prev, lk.prev + 4):
            continue
        offs.add(field(v) if field(v)[0] is lk.this else (None, i))
    if not ctx.expect(len(offs) == 1 and None not in {r for r, _ in offs}, 'entry', lk.f.where, 'the number of the group is not entered in the table of members'):
        return None
    stores = [i for i, q, v in lk.entries if ptr_parts(q)[1].get((), 0) not in (lk.prev, lk.prev + 4)]
    for r in rets(lk.f):
        ctx.expect(not api.reaches_without(s, r, stores), 'entry', r.where, 'a member may be added without the number of its group')
    return offs.pop()[1]


def centroid(ctx):
    """fields used to make the representative: (length, dataset)"""
    p = ctx.prog(plan([r'^%s\(' % CENT], [r'^%s::' % SET, c14.TSKEEP]))
    g = ctx.one(p, CENT)
    s = ctx.sym(g, p, nogate=True, stable=stable_args)
    this = s.argByName['this']
    ints = [a for a in s.argT if a.args[2] == 'i32']
    src = [i for i in g.instrs() if i.is_call and i.short == SET + '::getTimeSeries']
    put = [i for i in g.instrs() if i.is_call and i.short == TS + '::operator=']
    ok = len(src) == 1 and len(put) == 1 and len(ints) == 2
    if ok:
        a = s.info[src[0].id]['args']
        ln = field(add(a[4], a[3], -1))
        ds = field(a[1])
        ok = a[2] is ints[0] and a[3] is ints[1] and ln[0] is this and ds[0] is this and s.info[put[0].id]['args'][1] is a[0] and \
            not any(api.reaches_without(s, r, put) for r in rets(g))
    if not ctx.expect(ok, 'represented', g.where, 'the representative is not set to the subsequence asked for'):
        return None, None
    return ln[1], ds[1]


def members(ctx):
    """a member added is counted"""
    lk = Links(ctx)
    s, f = lk.s, lk.f
    off = Roles(ctx, GRP, ['getCount']).off['getCount']
    q = ptr_add(lk.this, {(): off} if off else {})
    for r in rets(f):
        v = s.peek(api.state_before(s, r), q, 'i32')
        d = add(v, const(-1))
        ctx.expect(field(d) == (lk.this, off), 'counted', r.where, 'a member added is not counted once')
    p = ctx.prog(plan([r'^%s::%s\(' % (GRP, GRP.split('::')[-1])], ['^%s::' % SET, '^%s::' % TS]))
    g = ctx.one(p, GRP + '::' + GRP.split('::')[-1])
    sg = ctx.sym(g, p, nogate=True, stable=stable_args)
    for r in rets(g):
        v = sg.peek(sg.outstate[r.blk], ptr_add(sg.argByName['this'], {(): off} if off else {}), 'i32')
        ctx.expect(v is const(0), 'counted', r.where, 'a new group does not start without members')
