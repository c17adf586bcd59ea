"""Every listed distance name selects its own distance, plain and warped.

The start-up code that builds the two tables (computations and names) is read
from the intermediate code: entry i of the names is compared with entry i of
the computations.  A plain name must stand for the point-by-point template and
the name with the warping suffix for the warping template, instantiated with
the metric class of that name, and the instantiation may only use members of
that metric.  The lookup is flattened: the loop that fills the lookup table must
pair entry i with entry i over all entries, run whenever the table is empty, a
name that is present yields the entry stored under that very name, any other
name raises the library's exception, and the listing is the table of names
itself.  Grouping stores the computation of the given name as plain and that of
name plus suffix as warped distance (or, for a name tested for, the pruned
computation, which must end in the warping template of the metric of that
name), and every grouping step and search step receives the one it is meant to.
"""
from gx import api
from gx.lib import *
from gx.loops import ranges, iter_skips
from gx.models import size_of

RULE = 'table-to-table pairing of names and template instantiations; effect of the lookup; routing of plain/warped form'
SUFFIX = '_dtw'
GET = 'genex::getDistanceFromName'


def text(p, t):
    """string literal behind a term"""
    if t.op == 'str':
        t = t.args[0]
    if t.op != 'global':
        return None
    g = p.globals.get(t.args[0])
    i = g.get('init') if g else None
    return i.get('str') if isinstance(i, dict) else None


def inits(ctx, p):
    """global vector -> list of entries (terms) given to it at start-up"""
    out = {}
    for f in p.funcs.values():
        if not f.name.startswith('__cxx_global_var_init'):
            continue
        cands = [i for i in f.instrs() if i.is_call and i.short == 'std::vector::vector' and 'initializer_list' in (i.dem or '')]
        if not cands:
            continue
        s = ctx.sym(f, p)
        for i in cands:
            a = s.info[i.id]['args']
            if a[0].op != 'global' or len(a) < 3 or a[2].op != 'int':
                continue
            n, base = a[2].args[0], a[1]
            isstr = 'basic_string' in i.dem.split('initializer_list')[0]
            st = api.state_before(s, i)
            ents = []
            # an array copied from a constant
            const_src = None
            for j in f.instrs():
                if j.is_call and j.dem and j.dem.startswith('llvm.memcpy'):
                    b = s.info[j.id]['args']
                    if b[0] is base and b[1].op == 'global':
                        const_src = p.globals.get(b[1].args[0], {}).get('init')
            if base.op == 'global':
                const_src = p.globals.get(base.args[0], {}).get('init')
            for k in range(n):
                if isstr:
                    ents.append(s.peek(st, ptr_add(base, {(): 32 * k} if k else {}), 'obj'))
                elif isinstance(const_src, list) and k < len(const_src) and str(const_src[k]).startswith('@'):
                    ents.append(mk('global', const_src[k][1:]))
                else:
                    ents.append(s.peek(st, ptr_add(base, {(): 8 * k} if k else {}), 'ptr'))
            out[a[0]] = (ents, i.where)
    return out


def slot_loads(s, t, m, key):
    """t is the value stored in map m under the key"""
    q = None
    if t.op == 'ld':
        q = t.args[0]
    elif t.op == 'phi' and t.args[2][0] == 'm':
        q = t.args[2][1]
    if q is None:
        return False
    r, _ = ptr_parts(q)
    return r.op == 'node' and r.args[0] is m and r.args[1] is key


def run(ctx):
    p = ctx.prog(['index'] + plan([r'^__cxx_global_var_init', r'^%s\(' % GET, r'^genex::getAllDistanceName\(',
                                   r'genex::(pairwiseDistance|warpedDistance)<']))
    f = ctx.one(p, GET)
    s = ctx.sym(f, p, nogate=True)
    name = s.argT[0]
    key = mk('ld', name, 'obj', ())
    # ------------------------------------------------------------ filling
    fills = []
    for i in f.instrs():
        if i.op == 'store':
            r, _ = ptr_parts(s.info[i.id]['ptr'])
            if r.op == 'node' and r.args[0].op == 'global':
                fills.append((i, r, s.info[i.id]['val']))
        elif i.is_call and i.short in ('std::map::insert', 'std::map::emplace'):
            c = s.info[i.id]['call']
            if c.this.op == 'global':
                at = (c.params[0], c.params[1]) if len(c.params) == 2 else (c.params[0], ptr_add(c.params[0], {(): 32}))
                fills.append((i, mk('node', c.this, api.content_before(s, i, at[0])), s.peek(api.state_before(s, i), at[1], 'ptr')))
    ctx.require(len(fills) == 1, 'the place where the lookup table is filled was not found')
    i, node, v = fills[0]
    M = node.args[0]
    k = node.args[1]
    ctx.require(v.op == 'ld' and v.args[0].op == 'elem' and k.op == 'ld' and k.args[0].op == 'elem',
                'the lookup table is not filled from two tables')
    NV, ni = k.args[0].args
    DV, di = v.args[0].args
    ctx.expect(ni is di, 'fill-pairing', i.where, 'a name is paired with the computation at another position')
    hs = f.loop_of.get(i.blk, [])
    ctx.require(len(hs) == 1, 'the lookup table is not filled by one loop')
    h = hs[0]
    rg = [r for r in ranges(s, h) if r.atom is di]
    sizes = [size_of(s, s.peek(s.instate[h], x, 'obj')) for x in (DV, NV)]
    ctx.expect(len(rg) == 1 and rg[0].lo is const(0) and rg[0].hi in sizes and not rg[0].early and rg[0].step == 1
               and not iter_skips(s, h, [i]), 'fill-range', i.where,
               'not every entry of the tables is entered into the lookup table')
    # the loop runs whenever the table is empty
    uses = [j for j in f.instrs() if j.is_call and j.short in ('std::map::find', 'std::map::count', 'std::map::at')
            and s.info[j.id]['call'].this is M]
    ctx.require(uses, 'the lookup was not found')
    start = mk('size', mk('ld', M, 'obj', ()))
    pr = Prover(s)

    def filled_edge(b, n):
        c = edge(s, b, n)
        return pr.lt(const(0), start, c)
    for u in uses:
        class B:
            blk = h
            id = f.blocks[h].ins[0].id
        ctx.expect(not api.reaches_without(s, u, [f.blocks[h].ins[0]], skip_edge=filled_edge), 'fill-first', u.where,
                   'a name can be looked up before the table was filled')
    # ------------------------------------------------------------ lookup
    only_own_exceptions(ctx, s, 'lookup')
    rs = rets(f)
    ctx.require(rs and throws(f), 'the lookup no longer returns or no longer refuses')
    for r in rs:
        v = s.val(r.ops[0])
        ctx.expect(slot_loads(s, v, M, key), 'lookup-value', r.where, 'the computation returned is not the one stored under the name')
        ctx.expect(any(k is key for _, k in api.Presence(s).facts(r.blk)[0]), 'lookup-present', r.where,
                   'a name that is not listed is answered')
    for t in throws(f):
        ctx.expect(any(k is key for _, k in api.Presence(s).facts(t.blk)[1]),
                   'lookup-refused', t.where, 'a listed name can be refused')
    g = ctx.one(p, 'genex::getAllDistanceName')
    gs = ctx.sym(g, p, nogate=True)
    for r in rets(g):
        ctx.expect(gs.val(r.ops[0]) is NV, 'listing', r.where, 'the listing is not the table the names are looked up in')
    # ------------------------------------------------------------ tables
    tabs = inits(ctx, p)
    ctx.require(DV in tabs and NV in tabs, 'the start-up contents of the tables were not found')
    (ds, dw), (ns, nw) = tabs[DV], tabs[NV]
    ctx.expect(len(ds) == len(ns), 'table-sizes', dw, 'there are %d computations and %d names' % (len(ds), len(ns)))
    seen = {}
    metric_of = {}
    for n, d in zip(ns, ds):
        nm = text(p, n)
        fn = p.index.get(d.args[0]) if d.op == 'global' else None
        ctx.require(nm is not None and fn is not None, 'an entry of the distance tables could not be read')
        ctx.count('table entries')
        ctx.expect(nm not in seen, 'table-duplicate', nw, 'the name %s is listed twice' % nm)
        seen[nm] = fn
        impl = p.funcs.get(fn['name'])
        if not ctx.expect(impl is not None, 'table-template:' + nm, dw, '%s does not select one of the two distance templates' % nm):
            continue
        warped = impl.short == 'genex::warpedDistance'
        ctx.expect(warped == nm.endswith(SUFFIX), 'table-form:' + nm, dw,
                   '%s selects the %s form' % (nm, 'warped' if warped else 'plain'))
        from gx import names
        m = (names.parse(impl.dem)[4] or names.parse(impl.dem)[5] or ['?'])[0].split('::')[-1]
        base = nm[:-len(SUFFIX)] if nm.endswith(SUFFIX) else nm
        metric_of.setdefault(base, set()).add(m)
        ctx.expect(m.lower() == base.lower().replace('_', ''), 'table-metric:' + nm, dw, '%s selects the metric %s' % (nm, m))
        own = 'genex::%s::' % m
        metrics = {x.split('::')[1] for x in impl.inlined if x.startswith('genex::') and
                   (x.split('(')[0].endswith('::reduce') or x.split('(')[0].endswith('::init') or
                    x.split('(')[0].endswith('::norm') or x.split('(')[0].endswith('::normDTW'))}
        ctx.expect(metrics == {m}, 'table-members:' + nm, impl.where, '%s uses members of %s' % (nm, ', '.join(sorted(metrics))))
    for nm in seen:
        other = nm[:-len(SUFFIX)] if nm.endswith(SUFFIX) else nm + SUFFIX
        ctx.expect(other in seen, 'table-partner:' + nm, nw, '%s is listed without %s' % (nm, other))
    ctx.require(ctx.counts['table entries'] >= 4, 'fewer distances than expected')
    roles = ts_roles(ctx)
    for nm, fn in sorted(seen.items()):
        impl = p.funcs.get(fn['name'])
        if impl is not None and impl.short == 'genex::pairwiseDistance':
            pointwise(ctx, p, impl, nm, roles)
    forms(ctx, seen)


def points(s, roles):
    """reads of points: (instruction, series argument, position)"""
    out = []
    for i in s.fn.instrs():
        if i.op != 'load' or i.ty != 'double':
            continue
        r, o = ptr_parts(s.info[i.id]['ptr'])
        if r.op != 'ld':
            continue
        a, ao = ptr_parts(r.args[0])
        if a.op != 'arg' or ao.get((), 0) != roles.off['getData']:
            continue
        start = mk('ld', roles.at(a, 'getStart'), 'i32', ())
        out.append((i, a, o, start))
    return out


def pointwise(ctx, p, f, nm, roles):
    """a plain distance reads the points with equal positions, all of them, in order"""
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    ts = [a for a, ty in zip(s.argT, f.params) if 'TimeSeries' in ty]
    pts = points(s, roles)
    ctx.require(len(ts) == 2 and pts, 'no reads of points found in %s' % f.dem[:60])
    done = 0
    for h in f.loops:
        for rg in ranges(s, h):
            here = [(i, a) for i, a, o, st in pts if i.blk in f.loops[h] and
                    o == padd({(st,): 8}, {(rg.atom,): 8})]
            if {a for _, a in here} != set(ts):
                continue
            lens = [mk('ld', roles.at(a, 'getLength'), 'i32', ()) for a in ts]
            ok = rg.lo is const(0) and rg.hi in lens and rg.step == 1
            for a in ts:
                ok = ok and not iter_skips(s, h, [i for i, b in here if b is a])
            if ok and len(here) == len(pts):
                done += 1
    ctx.expect(done == 1, 'pointwise:' + nm, f.where, 'the plain distance does not run over all pairs of points with equal positions')


def base_name(p, t):
    """(form, content of the name) of a name given to the lookup"""
    if t.op == 'concat':
        return ('warped' if text(p, t.args[1]) == SUFFIX else None), t.args[0]
    return 'plain', t


def asked(p, s, i):
    return base_name(p, api.content_before(s, i, s.info[i.id]['args'][-1]))


def stored(ctx, p, s):
    """places of the object behind the first argument that receive a distance: (store, offset, form)"""
    f = s.fn
    calls = {s.vals[i.id]: i for i in f.instrs() if i.is_call and i.short == GET}
    names = {asked(p, s, i)[1] for i in calls.values()}
    out = []
    for i in f.instrs():
        if i.op != 'store':
            continue
        r, o = ptr_parts(s.info[i.id]['ptr'])
        if r.op != 'arg' or r.args[1] != 'this' or set(o) - {()}:
            continue
        for (v,), fs in split(s, [s.info[i.id]['val']], s.facts(i.blk)):
            if v in calls:
                form = asked(p, s, calls[v])[0]
            elif v.op == 'global' and 'genex::TimeSeries const&' in p.index.get(v.args[0], {}).get('dem', ''):
                form = pruned(ctx, p, s, v, fs, names)
            else:
                continue
            ctx.expect(form is not None, 'stored-distance', i.where,
                       'a distance is stored that is neither the plain nor the warped form of the given name')
            out.append((i, o.get((), 0), form))
    return calls, names, out


def forms(ctx, seen):
    """plain and warped form in grouping and searching"""
    KEEPS = [r'^%s\(' % GET, r'^genex::(TimeSeriesSet::getTimeSeries|PAAWrapper::getPAA|tsPAA)\(', r'^%s::' % LGS, r'^%s::' % GRP,
             r'^genex::TimeSeries::(TimeSeries|~TimeSeries|operator=)\(', r'^genex::generateTraverseOrder\(', r'^ThreadPool::', 'boost::']
    p = ctx.prog(['index'] + plan([r'^genex::TimeSeriesSet::getKBestMatchesBruteForce\(',
                                   r'^genex::PAAWrapper::getKBestMatchesPAA\(', r'^%s::' % GGS, r' %s::load<' % GGS], KEEPS))
    own = [g for g in p.funcs.values() if g.short.startswith(GGS + '::')]
    off = {}
    syms = {g: ctx.sym(g, p, nogate=True, stable=stable_args) for g in own}
    setters = []
    for g in own:
        s = syms[g]
        calls, names, out = stored(ctx, p, s)
        if calls or out:
            setters.append((g, s, calls, names, out))
        for i, o, form in out:
            if form:
                off.setdefault(form, {}).setdefault(o, i)
    ctx.require(set(off) == {'plain', 'warped'}, 'plain and warped distance of a grouping not found')
    ctx.expect(len(off['plain']) == 1 and len(off['warped']) == 1 and set(off['plain']) != set(off['warped']), 'stored-roles',
               next(iter(off['plain'].values())).where, 'the plain and the warped distance are stored in the same place or mixed')
    off = {k: next(iter(v)) for k, v in off.items()}
    for g, s, calls, names, out in setters:
        ctx.count('functions choosing a distance')
        ctx.expect(len(names) == 1, 'stored-name:' + g.short, g.where, 'plain and warped distance are looked up under different names')
        uses = rets(g) + [i for i in g.instrs() if i.is_call and i.short == LGS + '::generateGroups']
        for form in ('plain', 'warped'):
            st = [i for i, o, fm in out if fm == form]
            for u in uses:
                ctx.expect(st and not api.reaches_without(s, u, st), 'stored-%s:%s' % (form, g.short), u.where,
                           'the %s distance may not have been chosen here' % form)
        N = next(iter(names))
        recs = []
        for i in g.instrs():
            if i.is_call and i.short in ('std::string::operator=', 'std::basic_string::operator=', 'std::string::assign',
                                         'std::basic_string::assign'):
                c = s.info[i.id]['call']
                if ptr_parts(c.this)[0] is s.argByName['this'] and api.content_before(s, i, c.params[0]) is N:
                    recs.append(i)
        direct = any(ptr_parts(s.info[i.id]['args'][-1])[0] is s.argByName['this'] for i in calls.values())
        ctx.expect(direct or all(recs and not api.reaches_without(s, u, recs) for u in rets(g)), 'recorded-name:' + g.short, g.where,
                   'the name of the distance is not recorded')
    # every step gets the form it is meant to
    want = {LGS + '::generateGroups': 'plain', LGS + '::getBestGroup': 'warped', LGS + '::interLevelKSim': 'warped',
            GRP + '::getBestMatch': 'warped', GRP + '::intraGroupKSim': 'warped'}
    got = set()
    for g in p.funcs.values():
        if g not in syms:
            continue
        gs = syms[g]
        for i in g.instrs():
            if not i.is_call:
                continue
            if i.short in want:
                fp = [a for a, ty in zip(gs.info[i.id]['call'].params, gs.info[i.id]['call'].ptypes) if ty.startswith('double (*')]
                ctx.require(len(fp) == 1, '%s no longer takes one distance' % i.short)
                ok = gives(p, gs, fp[0], off, want[i.short])
                ctx.expect(ok, 'step-form:' + i.short, i.where, '%s is not given the %s distance of the grouping' % (i.short, want[i.short]))
                got.add(i.short)
                ctx.count('steps given a distance')
            elif i.dem is None and i.ty == 'double' and gs.info[i.id].get('fptr') is not None:
                ctx.expect(gives(p, gs, gs.info[i.id]['fptr'], off, 'warped'), 'step-form:direct', i.where,
                           'a search compares with another distance than the warped one')
                ctx.count('steps given a distance')
    for w in sorted(set(want) - got):
        ctx.require(False, 'no call of %s found' % w)
    for nm in ('genex::TimeSeriesSet::getKBestMatchesBruteForce', 'genex::PAAWrapper::getKBestMatchesPAA'):
        g = ctx.one(p, nm)
        gs = ctx.sym(g, p, nogate=True, stable=stable_args)
        cs = [i for i in g.instrs() if i.is_call and i.short == GET]
        ctx.require(cs, '%s no longer looks a distance up' % nm)
        arg = [a for a, ty in zip([a for a in gs.argT if a.args[1] not in ('this', 'sret')], g.params) if 'basic_string' in ty]
        vals = {gs.vals[i.id]: i for i in cs}
        for i in cs:
            ctx.expect(asked(p, gs, i) == ('warped', mk('ld', arg[0], 'obj', ())), 'search-form:' + nm, i.where,
                       'the exhaustive search does not use the warped form of the distance asked for')
        for i in g.instrs():
            if i.is_call and i.dem is None and i.ty == 'double':
                ctx.expect(gs.info[i.id].get('fptr') in vals, 'search-form:' + nm, i.where,
                           'the exhaustive search compares with a distance that was not looked up')


def gives(p, s, t, off, form):
    """t is the distance the grouping keeps as `form`"""
    calls = {s.vals[i.id]: i for i in s.fn.instrs() if i.is_call and i.short == GET}
    for (v,), _ in split(s, [t], []):
        if v in calls:
            if asked(p, s, calls[v])[0] != form:
                return False
            continue
        q = v.args[0] if v.op == 'ld' else v.args[2][1] if v.op == 'phi' and v.args[2][0] == 'm' else None
        if q is None:
            return False
        r, o = ptr_parts(q)
        if not (r.op == 'arg' or r.op == 'ld') or o.get((), 0) != off[form] or set(o) - {()}:
            return False
    return True


def pruned(ctx, p, s, v, fs, names):
    """the pruned computation chosen for a tested name ends in the warping template of that name"""
    nm = None
    for g in fs:
        if g.op == 'streq' and any(c in g.args for c in names):
            nm = text(p, [x for x in g.args if x not in names][0])
    d = p.index.get(v.args[0])
    if nm is None or d is None:
        return None
    q = ctx.prog(['index'] + plan([r'^%s\(' % d['dem'].split('(')[0]],
                                  [r' genex::(warpedDistance|pairwiseDistance)<', r'LowerBound\(']))
    f = ctx.one(q, d['dem'].split('(')[0])
    ps = ctx.sym(f, q, nogate=True)
    ok = False
    for x in rets(f):
        for (t,), _ in split(ps, [ps.val(x.ops[0])], ps.facts(x.blk)):
            if t.op == 'fconst' and str(t.args[0]) == 'inf':
                continue
            cs = [i for i in f.instrs() if i.is_call and ps.vals.get(i.id) is t]
            good = False
            for i in cs:
                from gx import names
                m = (names.parse(i.dem)[4] or names.parse(i.dem)[5] or ['?'])[0].split('::')[-1]
                a = ps.info[i.id]['args']
                good = i.short == 'genex::warpedDistance' and m.lower() == nm.lower() and list(a) == list(ps.argT)
            ctx.expect(good, 'pruned:' + nm, x.where, 'the pruned distance used for %s does not end in its warped form' % nm)
            ok = ok or good
    return 'warped' if ok else None
