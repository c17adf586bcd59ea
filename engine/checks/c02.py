"""Count, registered names and allocated datasets stay in step on every path of every interface operation.

For each public operation the content of the dataset map at every normal return
is compared with its content on entry (the map is tracked as a value: insertions
and removals with their keys, resolved with the lookups that dominate them), and
the change of the count that is reported must equal the change of the number of
names.  For loading, it is shown in addition that nothing happens while the name
is in use, that the object registered is the one the file was read into, and
that on every exceptional exit the map is unchanged and the new object deleted.
"""
from gx import api, names
from gx.api import Maps, Presence, PresenceF, cases, contents_at, effects
from gx.terms import mk, const, poly, padd, ptr_parts, mkpoly, subterms

RULE = 'on every path, change of reported count = change of number of registered names; failed loads register and keep nothing'


def net(c, c0, facts, depth=0):
    """('rel', d): size = size on entry + d;  ('abs', n);  None: unknown"""
    pr = PresenceF(facts)
    if c is c0:
        return ('rel', 0)
    if c.op == 'vec' and c.args[0].op == 'int':
        return ('abs', c.args[0].args[0])
    if c.op == 'mins':
        r = net(c.args[0], c0, facts, depth + 1)
        if r is None:
            return None
        if pr.present(0, c.args[0], c.args[1]):
            return r
        if pr.absent(0, c.args[0], c.args[1]):
            return (r[0], r[1] + 1)
        return None
    if c.op == 'mdel':
        r = net(c.args[0], c0, facts, depth + 1)
        if r is None:
            return None
        if pr.present(0, c.args[0], c.args[1]):
            return (r[0], r[1] - 1)
        if pr.absent(0, c.args[0], c.args[1]):
            return r
        return None
    return None


def key_changes(c, c0, facts):
    """set of keys added / removed relative to entry"""
    pr = PresenceF(facts)
    add, rem = set(), set()
    while c is not c0:
        if c.op == 'mins':
            if not pr.present(0, c.args[0], c.args[1]):
                add.add(c.args[1])
            c = c.args[0]
        elif c.op == 'mdel':
            rem.add(c.args[1])
            c = c.args[0]
        else:
            return None
    return add, rem


def run(ctx):
    prog = api.program(ctx)
    raises = api.may_raise(prog, ctx)
    # what is reported as the count
    f = api.method(ctx, 'getDatasetCount')
    s = api.sym(ctx, f)
    rets = [b for b in f.rpo if f.blocks[b].term.op == 'ret']
    ctx.require(len(rets) == 1, 'getDatasetCount has no single result')
    rv = s.val(f.blocks[rets[0]].term.ops[0])
    ctx.count('operations')
    counter = None
    if rv.op == 'size':
        m = Maps(s)
        ctx.expect(rv.args[0].op == 'ld' and rv.args[0].args[0] is m.ds, 'getDatasetCount:size', f.where,
                   'the reported count is the size of something that is not the map of datasets')
    elif rv.op == 'ld' and ptr_parts(rv.args[0])[0].op == 'arg':
        counter = mkpoly(ptr_parts(rv.args[0])[1])
        cty = rv.args[1]
        ctx.ok('count is reported from a counter field')
    else:
        ctx.bad('getDatasetCount:result', f.where, 'the reported count is %s, neither the counter nor the number of names' % rv)
        return
    cptr = None
    for m in sorted(api.PUBLIC):
        f = api.method(ctx, m)
        s = api.sym(ctx, f)
        maps = Maps(s)
        ctx.count('operations')
        this = s.argT[1 if f.sret else 0]
        cp = api.ptr_add_(this, counter) if counter is not None else None
        c0 = mk('ld', maps.ds, 'obj', ()) if maps.ds is not None else None
        n0 = mk('ld', cp, cty, ()) if cp is not None else None
        for b in f.rpo:
            t = f.blocks[b].term
            if t.op != 'ret':
                continue
            ctx.count('returns')
            facts = list(s.facts(b))
            cnt = s.peek(s.outstate[b], cp, cty) if cp is not None else None
            cont = contents_at(s, b, maps.ds) if maps.ds is not None else None
            if maps.ds is None:
                if cp is not None:
                    ctx.expect(same(cnt, n0), '%s:count' % m, t.where, 'the count changes without any name being added or removed')
                continue
            for c1, fs in cases(s, cont, facts):
                if PresenceF(fs).infeasible(0):
                    continue
                r = net(c1, c0, fs)
                if r is None:
                    e = empty_by_loop(s, b, maps.ds, c1)
                    r = ('abs', 0) if e else None
                if r is None and m == 'getAllDatasetInfo' or r is None and unchanged_loop(s, c1, c0):
                    r = ('rel', 0)
                if r is None:
                    ctx.bad('%s:names' % m, t.where, 'cannot relate the registered names after %s to those before (%s)' % (m, c1))
                    continue
                if cp is not None:
                    for v, vf in cases(s, cnt, fs):
                        if PresenceF(vf).infeasible(0):
                            continue
                        if v.op == 'size':
                            good = v.args[0] is c1 or net(v.args[0], c0, vf) == r
                        elif r[0] == 'abs':
                            good = v.op == 'int' and v.args[0] == r[1]
                        else:
                            d = padd(poly(v), poly(n0), -1)
                            good = d == ({(): r[1]} if r[1] else {})
                        ctx.expect(good, '%s:count' % m, t.where,
                                   'after %s the count is %s although the number of names is %s' % (
                                       m, v, 'entry %+d' % r[1] if r[0] == 'rel' else r[1]),
                                   '%s: names %s, count agrees' % (m, r))
                else:
                    ctx.ok('%s: names change by %s' % (m, r))
                # which name
                if m in ('loadDataset', 'unloadDataset'):
                    name = mk('ld', s.argT[1 + (1 if f.sret else 0)], 'obj', ())
                    want = ('rel', 1) if m == 'loadDataset' else ('rel', -1)
                    ch = key_changes(c1, c0, fs)
                    ctx.expect(r == want and ch is not None and (name in (ch[0] if m == 'loadDataset' else ch[1])),
                               '%s:net' % m, t.where, 'a successful %s must change the registered names by exactly its name' % m)
                elif m == 'unloadAllDataset':
                    ctx.expect(r == ('abs', 0), '%s:net' % m, t.where, 'names remain registered after unloading everything')
                else:
                    ctx.expect(r == ('rel', 0), '%s:net' % m, t.where, '%s changes the set of registered names' % m)
        failures(ctx, f, s, m, maps, raises, cp, n0, cty if counter is not None else None, c0)
    load(ctx, prog, raises)


def failures(ctx, f, s, m, maps, raises, cp, n0, cty, c0):
    """an operation that raises leaves names and count as they were"""
    pr = Presence(s)
    for b in f.rpo:
        for i in f.blocks[b].ins:
            if not i.is_call or not i.dem:
                continue
            if not (i.short in ('__cxa_throw', '__cxa_rethrow') or i.get('repo') and raises(i.get('callee'))):
                continue
            if pr.infeasible(b):
                continue
            ctx.count('raising calls')
            if cp is not None:
                st = s.outstate[b]
                ex = [b]
                if i.op == 'invoke':
                    lp = i.get('succ')[1]
                    zone = f.reachable(lp) | {lp}
                    if any(j.op == 'store' and s.info[j.id]['ptr'] is cp for x in zone for j in f.blocks[x].ins):
                        ex = [x for x in zone if f.blocks[x].term.op == 'resume']
                for x in ex:
                    v = s.peek(s.outstate[x], cp, cty)
                    ctx.expect(all(y is n0 for y, _ in cases(s, v, [])), '%s:count-on-failure:%s' % (m, i.short), i.where,
                               'the count is %s when %s fails' % (v, i.short))


def same(a, b):
    return a is b


def empty_by_loop(s, b, mp, c):
    """the facts at the return say that the map is empty"""
    for f in s.facts(b):
        if f.op == 'le0' and f.args[0].op == 'size' and f.args[0].args[0] is c:
            return True
        if f.op == 'eq0' and f.args[0].op == 'size' and f.args[0].args[0] is c:
            return True
    return False


def unchanged_loop(s, c, c0):
    """a loop that only re-inserts names taken from the map or known to be present"""
    if c.op != 'phi' or c not in s.minc:
        return False
    inc = s.minc[c]
    if inc.get('entry') is not c0:
        return False
    for p, v in inc.items():
        if p == 'entry':
            continue
        facts = list(s.facts(p))
        pr = PresenceF(facts)
        while v.op == 'mins' and (api.key_from_map(v.args[1]) or pr.present(0, v.args[0], v.args[1])):
            v = v.args[0]
        if v is not c:
            return False
    return True


def load(ctx, prog, raises):
    f = api.method(ctx, 'loadDataset')
    s = api.sym(ctx, f)
    maps = Maps(s)
    c0 = mk('ld', maps.ds, 'obj', ())
    name = mk('ld', s.argT[1 + (1 if f.sret else 0)], 'obj', ())
    pr = Presence(s)
    for i, what in effects(s):
        if i.op != 'store' and i.short and api.is_ds_map(i) and i.short not in ('std::map::operator[]', 'std::map::insert', 'std::map::emplace', 'std::map::erase', 'std::map::clear'):
            continue
        ctx.count('effects')
        ctx.expect(pr.absent(i.blk, c0, name), 'loadDataset:inuse:%s' % (i.short or i.op), i.where,
                   '%s although the name may already be in use' % what)
    # the object read into is the one registered
    loads = [i for i in f.calls() if i.short == api.BASE + '::loadData']
    ctx.require(loads, 'loadDataset no longer reads the file through the dataset object')
    news = {s.info[i.id]['call'].this for i in loads}
    ctx.expect(len(news) == 1 and next(iter(news)).op == 'new', 'loadDataset:target', loads[0].where,
               'the file is read into an object that is not newly created')
    obj = next(iter(news))
    slot = [k for k in s.universe if k[1] == 'ptr' and ptr_parts(k[0])[0].op == 'node' and ptr_parts(k[0])[0].args[0] is maps.ds]
    rets = [b for b in f.rpo if f.blocks[b].term.op == 'ret']
    for b in rets:
        vs = {s.peek(s.outstate[b], k[0], 'ptr') for k in slot if ptr_parts(k[0])[0].args[1] is name}
        ctx.expect(vs == {obj}, 'loadDataset:registered', f.blocks[b].term.where,
                   'the object registered under the name is not the one the file was read into')
        ctx.expect(not api.reaches_without(s, b, loads), 'loadDataset:read', f.blocks[b].term.where,
                   'loading can succeed without reading the file')
    # exceptional exits
    dels = [i for i, p in api.deletions(s) if p is obj] + \
        [i for i in f.calls() if i.short == 'operator delete' and s.info[i.id]['args'][0] is obj]
    alloc = f.by_id[obj.args[1]]
    ex = 0
    for b in f.rpo:
        t = f.blocks[b].term
        origins = []
        if t.op == 'invoke':
            if t.short == '__cxa_throw' or t.short == '__cxa_rethrow' or (t.get('repo') and raises(t.get('callee'))):
                origins.append((t.get('succ')[1], t))
        for i in f.blocks[b].ins:
            if i.op == 'call' and i.dem and (i.short in ('__cxa_throw', '__cxa_rethrow') or (i.get('repo') and raises(i.get('callee')))):
                origins.append((None, i))
        for lp, i in origins:
            if pr.infeasible(b):
                continue
            if not f.i_dominates(alloc, i):
                continue
            ex += 1
            # exits reachable from here
            outs = []
            if lp is None:
                outs = [i]
            else:
                for x in f.reachable(lp) | {lp}:
                    for j in f.blocks[x].ins:
                        if j.op == 'resume' or j.is_call and j.short in ('__cxa_throw', '__cxa_rethrow'):
                            outs.append(j)
            cont = contents_at(s, b, maps.ds)
            regd = any(mentions_insert(c1, name) for c1, _ in cases(s, cont, list(s.facts(b)))) or \
                lp is not None and any(j.is_call and j.short in ('std::map::operator[]', 'std::map::insert', 'std::map::emplace') and
                                       api.is_ds_map(j) for x in f.reachable(lp) | {lp} for j in f.blocks[x].ins)
            for j in outs:
                if pr.infeasible(j.blk):
                    continue
                leak = api.reaches_without(s, i, dels) and (lp is None or api.reaches_without(s, j, dels, start=lp))
                ctx.expect(not leak or regd, 'loadDataset:leak:%s' % i.short, j.where,
                           'an exception raised by %s leaves the partly loaded dataset allocated' % i.short)
                ctx.expect(not regd, 'loadDataset:partial:%s' % i.short, j.where,
                           'an exception raised by %s leaves the name registered although the load failed' % i.short)
    ctx.require(ex >= 1, 'no failing path of loadDataset was found')
    ctx.count('failing paths', ex)


def mentions_insert(c, key):
    while c.op in ('mins', 'mdel'):
        if c.op == 'mins' and c.args[1] is key:
            return True
        if c.op == 'mdel' and c.args[1] is key:
            return False
        c = c.args[0]
    return c.op == 'minsu'
