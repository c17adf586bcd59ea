"""Every argument of a public operation reaches the step it is meant for, and that step's result is returned.

For every public operation a frozen routing table states which dataset-level
step it stands for, on which object, and which argument goes where.  The
operation is flattened down to those steps; each call of such a step must match
its row by value (followed through temporaries, copies and helpers), every path
to a normal return must pass it exactly once, no other modifying step may be
called, and what is returned must be that step's result.  The same is done one
level below for grouping and searching.
"""
from gx import api, build
from gx.api import Maps
from gx.route import A, ANY, DSET, FC, PREP, R, Env, Step, check
from gx.terms import mk, ptr_parts, const

RULE = 'value routing from public parameters to dataset-level steps and back, on every path, against a frozen table'

D, B, P = api.DS + '::', api.BASE + '::', api.PAA + '::'
Q = lambda n, *a: Step('query', B + 'getTimeSeries', DSET(n), [A(x) for x in a])

TABLE = {
    'saveDataset': ([Step('saving', B + 'saveData', DSET(0), [A(1), A(2)])], None),
    'getTimeSeriesName': ([Step('the name lookup', B + 'getTimeSeriesName', DSET(0), [A(1)])], R('the name lookup')),
    'getTimeSeriesLength': ([Step('the length lookup', B + 'getItemLength', DSET(0), [A(1)])], R('the length lookup')),
    'getTimeSeries': ([Q(0, 1, 2, 3)], R('query')),
    'normalizeDataset': ([Step('normalising', B + 'normalize', DSET(0), [])], R('normalising')),
    'groupDataset': ([Step('grouping', D + 'groupAllLengths', DSET(0), [A(2), A(1), A(3), A(4)])], R('grouping')),
    'saveGroups': ([Step('saving', 'genex::saveToFile', None, [DSET(0), A(1)])], None),
    'loadGroups': ([Step('loading', 'genex::loadFromFile', None, [DSET(0), A(1)]),
                    Step('counting', D + 'getTotalNumberOfGroups', DSET(0), [])], R('counting')),
    'saveGroupsOld': ([Step('saving', D + 'saveGroupsOld', DSET(0), [A(1), A(2)])], None),
    'loadGroupsOld': ([Step('loading', D + 'loadGroupsOld', DSET(0), [A(1)])], R('loading')),
    'setWarpingBandRatio': ([Step('setting', 'genex::setWarpingBandRatio', None, [A(0)])], None),
    'getBestMatch': ([Q(1, 2, 3, 4), Step('searching', D + 'getBestMatch', DSET(0), [R('query')])], R('searching')),
    'getKBestMatches': ([Q(3, 4, 5, 6), Step('searching', D + 'getKBestMatches', DSET(2), [R('query'), A(0), A(1)])],
                        R('searching')),
    'getKBestMatchesBruteForce': ([Q(2, 3, 4, 5), Step('searching', B + 'getKBestMatchesBruteForce', DSET(1),
                                                       [R('query'), A(0), A(6)])], R('searching')),
    'preparePAA': ([Step('preparing', P + 'generatePAAMatrix', PREP(0), [A(1)])], None),
    'getKBestMatchesPAA': ([Q(2, 3, 4, 5), Step('searching', P + 'getKBestMatchesPAA', PREP(1),
                                                [R('query'), A(0), A(6)])], R('searching')),
    'distanceBetween': ([Step('first series', B + 'getTimeSeries', DSET(0), [A(1), A(2), A(3)]),
                         Step('second series', B + 'getTimeSeries', DSET(4), [A(5), A(6), A(7)]),
                         Step('the named distance', 'genex::getDistanceFromName', None, [A(8)]),
                         Step('measuring', '<pointer>', R('the named distance'),
                              [R('first series'), R('second series'), FC('inf'), ANY])], R('measuring')),
    'matchingBetween': ([Step('first series', B + 'getTimeSeries', DSET(0), [A(1), A(2), A(3)]),
                         Step('second series', B + 'getTimeSeries', DSET(4), [A(5), A(6), A(7)]),
                         Step('the named distance', 'genex::getDistanceFromName', None, [A(8)]),
                         Step('aligning', '<pointer>', R('the named distance'),
                              [R('first series'), R('second series'), FC('inf'), ANY])], R('aligning')),
}

MODIFYING = [B + x for x in ('loadData', 'clearData', 'normalize', 'saveData')] + \
    [D + x for x in ('groupAllLengths', 'reset', 'loadGroupsOld', 'saveGroupsOld')] + [P + 'generatePAAMatrix'] + \
    ['genex::saveToFile', 'genex::loadFromFile', 'genex::setWarpingBandRatio']

INFO = [('name', None), ('itemCount', B + 'getItemCount'), ('itemLength', B + 'getMaxLength'),
        ('isNormalized', B + 'isNormalized'), ('isGrouped', D + 'isGrouped'), ('distance', D + 'getDistanceName'),
        ('threshold', D + 'getThreshold')]


def run(ctx):
    for m in sorted(TABLE):
        f = api.method(ctx, m)
        s = api.sym(ctx, f)
        ctx.count('operations')
        steps, result = TABLE[m]
        need = max(n for n in range(len(f.params))) + 1
        e = Env(ctx, f, s, Maps(s))
        check(ctx, e, m, steps, result, MODIFYING)
    f = api.method(ctx, 'loadDataset')
    s = api.sym(ctx, f)
    ctx.count('operations')
    e = Env(ctx, f, s, Maps(s))
    check(ctx, e, 'loadDataset', [Step('loading', B + 'loadData', None, [A(1), A(3), A(4), A(2), A(5)])], None, MODIFYING)
    for m in ('loadDataset', 'getDatasetInfo'):
        f = api.method(ctx, m)
        s = api.sym(ctx, f)
        e = Env(ctx, f, s, Maps(s))
        for b in f.rpo:
            if f.blocks[b].term.op == 'ret':
                metadata(ctx, e, m, f.blocks[b].term, s.argT[0], e.argc(0))
    all_info(ctx)
    distances(ctx)
    second(ctx)


def metadata(ctx, e, m, at, p, name):
    """fields of the description at p (before instruction at) are the answers of the dataset of that name"""
    s, f = e.s, e.f
    st = api.state_before(s, at)
    lay = layout(ctx)
    for fld, sink in INFO:
        ctx.count('fields')
        ctx.require(fld in lay, 'field %s of the dataset description not found' % fld)
        off, ty = lay[fld]
        q = api.ptr_add_(p, const(off))
        if fld == 'name':
            c = s.peek(st, q, 'obj')
            ok = all(api.same_key(x, name) for x, _ in api.cases(s, c, []))
        else:
            kind = 'obj' if fld == 'distance' else ty
            v = s.peek(st, q, kind)
            ok = True
            for x, _ in api.cases(s, v, []):
                if x.op == 'zx':
                    x = x.args[0]
                j = f.by_id.get(x.args[1]) if x.op == 'ret' and x.args[0] == f.name else None
                c = s.info[j.id].get('call') if j is not None else None
                if c is None or c.short != sink:
                    ok = False
                    continue
                sl = api.slot_of(c.this)
                if sl is None:
                    # the object just registered under the name
                    st2 = api.state_before(s, j)
                    ok = ok and any(v2 is c.this for (p2, ty2), v2 in st2.cells.items()
                                    if ptr_parts(p2)[0].op == 'node' and ptr_parts(p2)[0].args[0] is e.maps.ds
                                    and ptr_parts(p2)[0].args[1] is name)
                else:
                    ok = ok and sl[0] is e.maps.ds and api.same_key(sl[1], name)
        ctx.expect(ok, '%s:info:%s' % (m, fld), at.where,
                   'the %s reported by %s is not what the named dataset says' % (fld, m))


def layout(ctx):
    """offsets of the description's fields, from the members written when one is constructed"""
    lay = getattr(ctx, '_lay', None)
    if lay is None:
        lay = ctx._lay = {'name': [0, None]}        # the first member needs no offset
        prog = api.program(ctx)
        for m in ('getDatasetInfo', 'loadDataset', 'getAllDatasetInfo'):
            f = api.method(ctx, m)
            for i in f.instrs():
                if i.op == 'getelementptr':
                    for x in i.get('steps'):
                        if x[0] == 'off' and x[2] and x[2].startswith('genex::dataset_metadata_t::'):
                            lay.setdefault(x[2].split('::')[-1], [x[1], None])
        types = {'itemCount': 'i32', 'itemLength': 'i32', 'isNormalized': 'i8', 'isGrouped': 'i8', 'threshold': 'double'}
        for k in lay:
            lay[k][1] = types.get(k)
    return lay


def all_info(ctx):
    m = 'getAllDatasetInfo'
    f = api.method(ctx, m)
    s = api.sym(ctx, f)
    e = Env(ctx, f, s, Maps(s))
    ctx.require(e.maps.ds is not None, 'getAllDatasetInfo does not use the map of datasets')
    its = [(h, a) for h in f.loops for a, inc in s.minc.items()
           if a.op == 'phi' and a.args[1] == h and 'entry' in inc and inc['entry'].op == 'mbegin' and inc['entry'].args[0] is e.maps.ds
           and all(v.op == 'next' and v.args[0] is a for p, v in inc.items() if p != 'entry')]
    pushes = [i for i in f.calls() if i.short in ('std::vector::push_back', 'std::vector::emplace_back') and
              'dataset_metadata_t' in i.dem]
    from gx import loops
    good = False
    for h, it in its:
        mine = [i for i in pushes if i.blk in f.loops[h]]
        early = [x for x in loops.exits(s, h) if not end_test(s, x, it, e.maps.ds)]
        if mine and not loops.iter_skips(s, h, mine) and not early:
            good = True
            for i in mine:
                c = s.info[i.id]['call']
                if c.params and c.params[0].op in ('alloca', 'ptr'):
                    metadata(ctx, e, m, i, c.params[0], mk('itkey', it))
    ctx.expect(good, '%s:complete' % m, f.where, 'not every loaded dataset is described exactly once')
    for b in f.rpo:
        if f.blocks[b].term.op == 'ret':
            ctx.expect(not api.reaches_without(s, b, [f.blocks[h].ins[0] for h, _ in its]), '%s:loop' % m,
                       f.blocks[b].term.where, '%s can return without looking at the datasets' % m)


def end_test(s, edge, it, mp):
    from gx import loops
    c = loops.edge_cond(s, *edge)
    return c is not None and c.op == 'peq' and it in c.args and any(x.op == 'mend' and x.args[0] is mp for x in c.args)


def distances(ctx):
    m = 'getAllDistanceInfo'
    f = api.method(ctx, m)
    s = api.sym(ctx, f)
    from gx import loops
    src = [i for i in f.calls() if i.short == 'genex::getAllDistanceName']
    ctx.require(src, 'getAllDistanceInfo does not ask for the distance names')
    vec = s.info[src[0].id]['res']
    pushes = [i for i in f.calls() if i.short in ('std::vector::push_back', 'std::vector::emplace_back')]
    good = False
    for h in f.loops:
        for r in loops.ranges(s, h):
            mine = [i for i in pushes if i.blk in r.body]
            if not mine or r.early or r.rotated or loops.iter_skips(s, h, mine):
                continue
            if not (r.lo is const(0) and r.hi.op == 'size' and r.hi.args[0].op == 'ld' and r.hi.args[0].args[0] is vec):
                continue
            ok = True
            for i in mine:
                c = s.info[i.id]['call']
                if i.short.endswith('emplace_back'):
                    t = api.content_before(s, i, c.params[0])
                else:
                    t = api.content_before(s, i, c.params[0])
                ok = ok and t.op == 'ld' and ptr_parts(t.args[0])[0] is mk('elem', vec, r.atom)
            good = good or ok
    ctx.expect(good, '%s:complete' % m, f.where, 'the description of the distances does not list each distance name once, in its place')


# ---------------------------------------------------------------- one level below
G = 'genex::GlobalGroupSpace'
PLAN2 = [r'root	^genex::GroupableTimeSeriesSet::(groupAllLengths|getBestMatch|getKBestMatches|getTotalNumberOfGroups|getDistanceName|getThreshold)(\[abi[^]]*\])?\(',
         'keep\t^genex::GlobalGroupSpace::', r'keep	^genex::TimeSeriesSet::', r'keep	^genex::TimeSeries::'] + \
    ['inline\t' + x for x in build.INLINE_STD]


def SPACE(e, i, t, ty):
    """the group space of this dataset"""
    if t.op == 'ld':
        return t.args[0].note is not None and 'GlobalGroupSpace' not in t.args[0].note and ptr_parts(t.args[0])[0] is e.this()
    return t.op == 'new'


SPACE.text = 'the group space of the dataset'


def second(ctx):
    prog = ctx.prog(PLAN2)

    def env(m):
        f = ctx.one(prog, D + m)
        s = ctx.sym(f, prog, stable=lambda r: r.op == 'arg' and r.args[1] != 'sret')
        ctx.count('operations')
        return Env(ctx, f, s)
    e = env('groupAllLengths')
    # either way of grouping, with the same arguments
    calls = []
    for sink, ms in ((G + '::group', [A(0), A(1), A(3)]), (G + '::groupMultiThreaded', [A(0), A(1), A(2), A(3)])):
        st = Step(sink, sink, SPACE, ms, when='alt')
        check(ctx, e, 'dataset.grouping', [st])
        calls += [e.f.by_id[x] for x in e.roles[sink]]
    ctx.require(calls, 'grouping a dataset no longer reaches the group space')
    for b in e.f.rpo:
        if e.f.blocks[b].term.op == 'ret':
            ctx.expect(not api.reaches_without(e.s, b, calls), 'dataset.grouping:missing', e.f.blocks[b].term.where,
                       'grouping can return without the group space having been asked to group')
            v = e.s.val(e.f.blocks[b].term.ops[0])
            ids = {i.id for i in calls}
            ctx.expect(all(e.producer(x) in ids for x in api.alternatives(e.s, v)), 'dataset.grouping:result',
                       e.f.blocks[b].term.where, 'grouping does not return the number of groups reported by the group space')
    for i in calls:
        if i.short == G + '::group':
            n = e.arg(2)
            from gx.prove import Prover
            ok = Prover(e.s).le(n, const(1), list(e.s.facts(i.blk)))
            ctx.expect(ok, 'dataset.grouping:threads', i.where, 'grouping with one thread although more than one may have been asked for')
    for m, sink, ms in (('getBestMatch', '::getBestMatch', [A(0)]),
                        ('getKBestMatches', '::getKBestMatches', [A(0), A(2)])):
        e = env(m)
        check(ctx, e, 'dataset.' + m, [Step('searching', G + sink, SPACE, ms)],
              R('searching') if m == 'getBestMatch' else None)
    for m in ('getTotalNumberOfGroups', 'getDistanceName', 'getThreshold'):
        e = env(m)
        ids = {i.id for i in e.f.calls() if i.short == G + '::' + m and SPACE(e, i, e.s.info[i.id]['call'].this, None)}
        ctx.require(ids, '%s no longer asks the group space' % m)
        for b in e.f.rpo:
            t = e.f.blocks[b].term
            if t.op != 'ret':
                continue
            vs = [x for x, _ in api.cases(e.s, api.content_before(e.s, t, e.s.argT[0]), [])] if e.f.sret else \
                list(api.alternatives(e.s, e.s.val(t.ops[0])))
            ctx.expect(any(e.producer(x) in ids for x in vs) and all(
                e.producer(x) in ids or x.op in ('int', 'fconst', 'str', 'str0', 'ctor') for x in vs),
                'dataset.%s:result' % m, t.where, '%s does not report what the group space says' % m)
