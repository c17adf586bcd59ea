"""Unloading destroys each dataset and everything kept under its name exactly once and forgets the name.

Typestate over the flattened interface operations.  A slot of a map that owns
objects (datasets, prepared search structures) may only be removed after the
object in it was deleted, an object deleted through a slot must be gone from the
slot before the operation returns, and a slot may only be overwritten when it
was empty.  When unloading a name, both maps must be free of that name at every
normal return; when unloading everything and in the destructor both must be
empty and every element must have been deleted by a loop over the whole map.
Prepared structures are only ever stored under the name of the dataset they were
built from.  The destructors below are followed field by field: every pointer
field that ever receives an allocated object must be deleted by its class's
destructor.
"""
from gx import api, build, loops, names
from gx.api import Maps, Presence, PresenceF, cases, contents_at, deletions, slot_of, same_key
from gx.terms import const, mk, ptr_parts, NULL, subterms

RULE = 'delete before erase, erase before return, both maps cleared of the name, destructors delete every owned field'


def gone(s, c, key, facts, depth=0):
    """key is certainly absent from map content c"""
    for c1, fs in cases(s, c, facts):
        pr = PresenceF(fs)
        if pr.infeasible(0):
            continue
        x = c1
        while True:
            if x.op == 'vec' and x.args[0].op == 'int' and x.args[0].args[0] == 0:
                break
            if x.op == 'mdel' and x.args[1] is key:
                break
            if pr.absent(0, x, key):
                break
            if x.op == 'mdel':
                x = x.args[0]
                continue
            if any(f.op in ('le0', 'eq0') and f.args[0].op == 'size' and f.args[0].args[0] is x for f in fs):
                break
            return False
    return True


def map_loop_deletes(s, mp, want):
    """loops that run over the whole map and delete the object in every slot: list of (header, deletions)"""
    fn = s.fn
    out = []
    dels = deletions(s)
    for h, body in fn.loops.items():
        its = []
        for a, inc in s.minc.items():
            if a.op == 'phi' and a.args[1] == h and 'entry' in inc and inc['entry'].op == 'mbegin' and inc['entry'].args[0] is mp:
                if all(v.op == 'next' and v.args[0] is a for p, v in inc.items() if p != 'entry'):
                    its.append(a)
        for it in its:
            # the only way out is reaching the end
            ok = True
            for b in body:
                for t in fn.blocks[b].succs:
                    if t in body:
                        continue
                    br = fn.blocks[b].term
                    if br.op == 'invoke' and br.get('succ')[1] == t or not leads_to_return(fn, t):
                        continue        # unwinding
                    if br.op != 'br' or len(br.get('succ')) != 2:
                        ok = False
                        continue
                    c = s.asbool(s.val(br.ops[0]))
                    if c.op == 'not':
                        c = c.args[0]
                    if not (c.op == 'peq' and it in c.args and any(x.op == 'mend' and x.args[0] is mp for x in c.args)):
                        ok = False
            if not ok:
                continue
            mine = []
            for i, p in dels:
                if i.blk not in body:
                    continue
                sl = slot_of(p)
                if sl and sl[0] is mp and same_key(sl[1], mk('itkey', it)):
                    mine.append((i, p))
            if not mine:
                continue
            # every iteration passes a deletion or the null test
            p0 = mine[0][1]
            skip = lambda b, t: api.null_edge(s, b, t, p0) or (t not in body) or fn.blocks[b].term.op == 'invoke' and fn.blocks[b].term.get('succ')[1] == t
            if any(loop_iter_without(s, h, body, [i for i, _ in mine], skip) for _ in (0,)):
                continue
            out.append((h, mine))
    return out


def leads_to_return(fn, b):
    return any(fn.blocks[x].term.op == 'ret' for x in fn.reachable(b) | {b})


def loop_iter_without(s, h, body, stops, skip):
    """some iteration gets from the header back to it without executing a stop"""
    fn = s.fn
    sb = {i.blk for i in stops}
    seen = set()
    work = [t for t in fn.blocks[h].succs if t in body and h not in sb and not skip(h, t)]
    while work:
        b = work.pop()
        if b == h:
            return True
        if b in seen or b in sb:
            continue
        seen.add(b)
        for t in fn.blocks[b].succs:
            if not skip(b, t) and not api.dead_edge(s, b, t):
                work.append(t)
    return False


def run(ctx):
    prog = api.program(ctx)
    todo = list(api.PUBLIC) + ['~GenexAPI']
    for m in todo:
        f = api.method(ctx, m)
        s = api.sym(ctx, f)
        ctx.count('operations')
        maps = Maps(s)
        dels = deletions(s)
        rets = [b for b in f.rpo if f.blocks[b].term.op == 'ret']
        for label, mp in (('dataset', maps.ds), ('prepared structure', maps.paa)):
            if mp is None:
                continue
            isds = label == 'dataset'
            mine = [(i, p, slot_of(p)) for i, p in dels if slot_of(p) and slot_of(p)[0] is mp]
            # erase / clear only after delete
            for i in f.calls():
                if i.short not in ('std::map::erase', 'std::map::clear') or not (api.is_ds_map(i) if isds else api.is_paa_map(i)):
                    continue
                ctx.count('removals')
                if i.short == 'std::map::clear':
                    loops = map_loop_deletes(s, mp, label)
                    good = any(f.dominates(h, i.blk) and i.blk not in f.loops[h] for h, _ in loops)
                    ctx.expect(good, '%s:clear:%s' % (m, label), i.where,
                               'the map is emptied without deleting the %s in every slot first' % label)
                    continue
                st = s.info[i.id]
                a = st['args'][1]
                key = erased_key(s, i)
                st_ = [x for x, p, sl in mine if same_key(sl[1], key)]
                objs = {p for x, p, sl in mine if same_key(sl[1], key)}
                skip = lambda b, t: any(api.null_edge(s, b, t, o) for o in objs)
                pr = Presence(s)
                if not st_ and pr.absent(i.blk, mk('ld', mp, 'obj', ()), key):
                    continue
                good = st_ and (not api.reaches_without(s, i, st_, skip) or
                                not any(api.reaches_without(s, b, st_, skip, start=i.blk) for b in rets))
                ctx.expect(good, '%s:erase:%s' % (m, label), i.where,
                           'a slot is removed on a path that has not deleted the %s in it' % label)
            # deleted objects are gone from their slot at return, and deleted once
            for n, (i, p, sl) in enumerate(mine):
                ctx.count('deletions')
                for b in rets if m != '~GenexAPI' else ():
                    if b != i.blk and b not in f.reachable(i.blk):
                        continue
                    cont = contents_at(s, b, mp)
                    fs = list(s.facts(b))
                    if i.blk in f.loop_of and f.loop_of.get(i.blk) is not None and in_loop(f, i.blk):
                        good = all(x.op == 'vec' for x, _ in cases(s, cont, fs)) or gone_in_loop(s, i, mp)
                    else:
                        good = gone(s, cont, sl[1], fs) or slot_rewritten(s, b, p)
                    ctx.expect(good, '%s:dangling:%s' % (m, label), i.where,
                               'after this deletion the name can still lead to the destroyed %s' % label)
                for j, q, sl2 in mine[n + 1:]:
                    if q is p and (f.i_dominates(i, j) or f.i_dominates(j, i)):
                        ctx.bad('%s:twice:%s' % (m, label), j.where, 'the same %s is deleted twice' % label)
            # overwriting a slot
            for i in f.instrs():
                if i.op == 'store' and i.get('sty') == 'ptr':
                    info = s.info[i.id]
                    r, off = ptr_parts(info['ptr'])
                    if r.op == 'node' and r.args[0] is mp and info['val'] is not NULL:
                        ctx.count('slot writes')
                        pr = Presence(s)
                        c0 = mk('ld', mp, 'obj', ())
                        freed = [x for x, p, sl in mine if same_key(sl[1], r.args[1])]
                        good = pr.absent(i.blk, c0, r.args[1]) or freed and not api.reaches_without(s, i, freed)
                        ctx.expect(good, '%s:overwrite:%s' % (m, label), i.where,
                                   'an existing %s may be overwritten and lost' % label)
                        if not isds:
                            ctx.expect(built_from(s, maps, info['val'], r.args[1]), '%s:origin' % m, i.where,
                                       'the prepared structure is stored under another name than the dataset it was built from')
            # end state of the unloading operations
            if m in ('unloadDataset',):
                key = mk('ld', s.argT[1], 'obj', ())
                for b in rets:
                    ctx.expect(gone(s, contents_at(s, b, mp), key, list(s.facts(b))), '%s:kept:%s' % (m, label), f.blocks[b].term.where,
                               'a %s of that name survives unloading' % label)
            elif m in ('unloadAllDataset',):
                for b in rets:
                    ctx.expect(empty(s, b, mp), '%s:kept:%s' % (m, label), f.blocks[b].term.where,
                               'a %s survives unloading everything' % label)
            elif m == '~GenexAPI':
                dts = [i for i in f.calls() if i.short == 'std::map::~map' and (api.is_ds_map(i) if isds else api.is_paa_map(i))]
                ctx.require(dts, 'destructor of the interface class has no %s map' % label)
                loops = map_loop_deletes(s, mp, label)
                good = any(all(f.dominates(h, i.blk) for i in dts if leads_to_return(f, i.blk)) for h, _ in loops) or drained(s, mp, dts)
                ctx.expect(good, '%s:kept:%s' % (m, label), f.where, 'destroying the interface object leaves a %s allocated' % label)
        if m in ('unloadDataset', 'unloadAllDataset', '~GenexAPI'):
            ctx.expect(maps.ds is not None, '%s:untouched:dataset' % m, f.where, '%s does not touch the datasets' % m)
            ctx.expect(maps.paa is not None, '%s:untouched:prepared' % m, f.where,
                       '%s does not touch the prepared structures' % m)
    owners(ctx)


def in_loop(f, b):
    return any(b in body for body in f.loops.values())


def gone_in_loop(s, i, mp):
    """the slot is erased in the same iteration, after the deletion"""
    f = s.fn
    for j in f.calls():
        if j.short == 'std::map::erase' and j.blk in f.reachable(i.blk) | {i.blk}:
            return True
    return False


def drained(s, mp, dts):
    return all(empty(s, i.blk, mp, s.instate[i.blk]) for i in dts if leads_to_return(s.fn, i.blk))


def empty(s, b, mp, st=None):
    c = s.peek(st or s.outstate[b], mp, 'obj')
    for x, fs in cases(s, c, list(s.facts(b))):
        if x.op == 'vec' and x.args[0].op == 'int' and x.args[0].args[0] == 0:
            continue
        if any(f.op in ('le0', 'eq0') and f.args[0].op == 'size' and f.args[0].args[0] is x for f in fs):
            continue
        if any(f.op == 'peq' and {a.op for a in f.args} == {'mbegin', 'mend'} for f in fs):
            continue
        return False
    return True


def erased_key(s, i):
    c = s.info[i.id]['call']
    a = c.params[0]
    if a.op == 'find':
        return a.args[2]
    if a.op in ('mbegin', 'next', 'phi'):
        return mk('itkey', a)
    return api.content_before(s, i, a)


def slot_rewritten(s, b, p):
    return s.peek(s.outstate[b], p.args[0], 'ptr') is not p and s.peek(s.outstate[b], p.args[0], 'ptr').op == 'new'


def built_from(s, maps, obj, key):
    if obj.op != 'new':
        return False
    for i in s.fn.calls():
        if i.short == api.PAA + '::PAAWrapper':
            c = s.info[i.id]['call']
            if c.this is obj:
                a = c.params[0]
                sl = slot_of(a)
                return sl is not None and sl[0] is maps.ds and sl[1] is key
    return False


# ---------------------------------------------------------------------- owned fields
OWNERS = ['genex::TimeSeriesSet', 'genex::GroupableTimeSeriesSet', 'genex::GlobalGroupSpace',
          'genex::LocalLengthGroupSpace', 'genex::Group', 'genex::TimeSeries', 'genex::PAAWrapper', 'genex::GenexAPI']


def fields_of(s, t, cls):
    """field path (names) by which pointer t is reached from this"""
    r, off = ptr_parts(t)
    return t.note


def owners(ctx):
    """every field that receives an allocation is released by the destructor of its class"""
    prog = ctx.full()
    owned = {}
    for f in prog.funcs.values():
        if not f.short.startswith('genex::') or f.short.split('::')[-1].startswith('~'):
            continue
        if not any(i.short in ('operator new', 'operator new[]') for i in f.calls()):
            continue
        s = ctx.sym(f, prog)
        for i in f.instrs():
            if i.op == 'store' and i.get('sty') == 'ptr':
                info = s.info[i.id]
                if info['val'].op == 'new' and info['ptr'].note and info['ptr'].note.startswith('genex::'):
                    owned.setdefault(info['ptr'].note, i.where)
                elif info['val'].op == 'new' and info['ptr'].op == 'elem' and '::' in (info['ptr'].args[0].note or ''):
                    owned.setdefault(info['ptr'].args[0].note, i.where)
            elif i.is_call and i.short == 'std::vector::push_back' and 'genex::' in ' '.join(names.parse(i.dem)[5] or names.parse(i.dem)[4] or []):
                info = s.info[i.id]
                c = info['call']
                t = (names.parse(i.dem)[5] or names.parse(i.dem)[4])[0]
                if not t.endswith('*'):
                    continue
                v = s.peek(s.outstate[i.blk], c.params[0], 'ptr') if c.params[0].op == 'alloca' else None
                if c.this.note:
                    owned.setdefault(c.this.note, i.where)
    ctx.count('owned fields', len(owned))
    ctx.require(len(owned) >= 3, 'only %d owning fields found' % len(owned))
    for fld, where in sorted(owned.items()):
        cls, nm = fld.rsplit('::', 1)
        ds = [f for f in prog.funcs.values() if f.short == cls + '::~' + cls.split('::')[-1] and not f.name.endswith('D0Ev')]
        # a destructor of the class itself or of the class that contains it
        if not ds:
            ctx.bad('owner:%s' % fld, where, 'field %s receives an allocated object but its class has no destructor' % fld)
            continue
        okk = False
        for d in ds:
            s = ctx.sym(d, prog)
            for i in d.calls():
                args = s.info[i.id]['args']
                if not (i.short in ('operator delete', 'operator delete[]') or i.dem is None and i.get('fty') == 'void (ptr)'):
                    continue
                tgt = ptr_parts(args[0])[0]
                if tgt.op != 'ld':
                    continue
                p = tgt.args[0]
                if p.note == fld and p.op != 'elem':
                    # the field itself: released on every path (a test for null or for ownership may guard it)
                    okk = okk or released(s, i, tgt)
                elif p.op == 'elem' and p.args[0].note == fld:
                    okk = okk or whole_vector(s, i, p, tgt)
        ctx.expect(okk, 'owner:%s' % fld, where,
                   'the destructor of its class does not delete what is stored in %s on every path' % fld)


def released(s, i, v):
    """every path to the end passes the deletion of v, the null test or a flag test on the same object"""
    f = s.fn
    base = ptr_parts(v.args[0])[0]

    def skip(b, t):
        if api.null_edge(s, b, t, v):
            return True
        br = f.blocks[b].term
        if br.op == 'br' and len(br.get('succ')) == 2:
            c = s.asbool(s.val(br.ops[0]))
            c = c.args[0] if c.op == 'not' else c
            c = c.args[0] if c.op == 'eq0' else c
            # ownership flag: a byte member of the same object
            return c.op == 'ld' and c.args[1] == 'i8' and ptr_parts(c.args[0])[0] is base and \
                not (t == i.blk or i.blk in f.reachable(t))
        return False
    # every deletion of the same field counts: inlined destructors may test it again
    same = [j for j in f.calls() if j.short in ('operator delete', 'operator delete[]') or j.dem is None]
    same = [j for j in same if s.info[j.id]['args'] and ptr_parts(s.info[j.id]['args'][0])[0] is v]
    return not any(api.reaches_without(s, b, same, skip) for b in f.rpo if f.blocks[b].term.op == 'ret')


def whole_vector(s, i, p, v):
    """the deletion is executed for every element the vector had on entry"""
    f = s.fn
    vec, idx = p.args
    for h in loops.loops_of(f, i.blk):
        for r in loops.ranges(s, h):
            if r.atom is not idx or r.early or r.rotated:
                continue
            if r.lo is not const(0) or r.hi is not mk('size', mk('ld', vec, 'obj', ())):
                continue
            if loops.iter_skips(s, h, [i], lambda b, t: api.null_edge(s, b, t, v)):
                continue
            if any(api.reaches_without(s, b, [f.blocks[h].ins[0]]) for b in f.rpo if f.blocks[b].term.op == 'ret'):
                continue
            return True
    return False
