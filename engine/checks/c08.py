"""A dataset counts as grouped only when grouping or group loading completed.

The field that decides whether a dataset is grouped is taken from the query
that reports it.  In every method of the dataset class, the binary group
loader included, a typestate analysis follows that field along every path:
untouched, empty, holding a group space allocated here (built or not yet
built), or still holding a destroyed one.  At every point where an exception
can leave the method the field must be untouched or empty; at every normal
return it may also hold a group space on which a building step completed.  A
group space is destroyed at most once, never while the field still shows it at
an exit, and every use of the field is guarded by a test that it is not empty.
"""
from gx import api
from gx.lib import *

RULE = 'typestate of the group field (untouched/empty/built/unbuilt/destroyed) at every exceptional and normal exit'

PLAN_ROOTS = [r'^%s::' % GSET, r' %s::(load|save)<' % GSET]
BUILD = ('group', 'groupMultiThreaded', 'loadGroupsOld')


def shown(ctx):
    """(program, field that holds the groups of a dataset)"""
    p = ctx.prog(plan(PLAN_ROOTS, [r'^%s::(?!(reset|~|GlobalGroupSpace)).*\(' % GGS, r'^%s::' % LGS, 'boost::', r'^%s::(?!isLoaded|getItem|getMax)' % SET]))
    g = ctx.one(p, GSET + '::isGrouped')
    s = ctx.sym(g, p, nogate=True)
    off = None
    for r in rets(g):
        for (v,), fs in split(s, [s.asbool(s.val(r.ops[0]))], s.facts(r.blk)):
            if v.op == 'not' and v.args[0].op == 'peq':
                for x in v.args[0].args:
                    if x.op == 'ld':
                        root, o = ptr_parts(x.args[0])
                        if root is s.argT[0] and not set(o) - {()} and NULL in v.args[0].args:
                            off = o.get((), 0)
    ctx.require(off is not None, 'isGrouped no longer tests one field of the dataset')
    return p, off


def run(ctx):
    p, off = shown(ctx)
    ms = [f for f in p.funcs.values() if f.short.startswith(GSET + '::') and 'this' in ctx.sym(f, p, nogate=True, stable=stable_args).argByName]
    ctx.require(len(ms) >= 8, 'methods of the dataset class not found')
    pub = 0
    for f in ms:
        if f.short == GSET + '::GroupableTimeSeriesSet':
            continue
        pub += method(ctx, p, f, off)
    ctx.require(pub >= 3, 'fewer than three places publish a group space')


def method(ctx, p, f, off, kept=False):
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    ctx.count('methods')
    this = s.argByName['this']
    F = ptr_add(this, {(): off} if off else {})
    init = mk('ld', F, 'ptr', ())
    dels = {}
    for i, v in api.deletions(s):
        dels.setdefault(i.id, set()).add(v)
    name = f.short.split('::')[-1]
    dtor = '~' in name
    pub = set()
    # ---------------------------------------------------------------- transfer
    # state: (field, init destroyed?, frozenset of built objects, frozenset of destroyed objects)
    start = ('init', False, frozenset(), frozenset())

    def classify(v):
        out = set()
        for x in api.alternatives(s, v):
            if x is NULL:
                out.add('null')
            elif x is init:
                out.add('init')
            elif x.op == 'new':
                out.add(x)
            else:
                out.add('other')
        return out

    def objs(v):
        return {x for x in api.alternatives(s, v) if x.op == 'new'}

    def builds(i):
        """objects whose construction work this call does"""
        if i.short and i.short.startswith(GGS + '::'):
            m = i.short.split('::')[-1]
            c = s.info[i.id]['call']
            if m == 'reset' or '~' in m or m == 'GlobalGroupSpace' or c.is_const:
                return set()
            return objs(c.this)
        if i.dem and 'boost::' in i.dem and i.short.endswith('operator>>'):
            return set().union(*[objs(a) for a in s.info[i.id]['args']] or [set()])
        return set()

    exits = []       # (instr, state, kind)
    seen = set()
    work = [(0, start)]
    while work:
        b, st = work.pop()
        if (b, st) in seen:
            continue
        seen.add((b, st))
        for i in f.blocks[b].ins:
            fld, gone, built, dead = st
            if i.op == 'store' and s.info[i.id]['ptr'] is F:
                vs = classify(s.info[i.id]['val'])
                v = next(iter(vs)) if len(vs) == 1 else 'other'
                if isinstance(v, T):
                    pub.add(i.id)
                st = (v, gone, built, dead)
            elif i.is_call:
                raising = not i.get('nounwind') and not (i.dem or '').startswith('llvm.') and '~' not in (i.short or '') \
                    and i.short != 'operator delete'
                if i.op != 'invoke' and raising:
                    exits.append((i, st, 'raise'))
                if i.id in dels:
                    for v in dels[i.id]:
                        for x in classify(v):
                            if x == 'init':
                                ctx.expect(not gone, '%s:destroyed-once' % name, i.where, 'the groups of the dataset are destroyed twice')
                                gone = True
                            elif isinstance(x, T):
                                ctx.expect(x not in dead, '%s:destroyed-once' % name, i.where, 'a new group space is destroyed twice')
                                dead = dead | {x}
                    st = (fld, gone, built, dead)
                done = builds(i)
                if done and i.op != 'invoke':
                    st = (st[0], st[1], built | done, st[3])
                # use of the field
                c = s.info[i.id].get('call')
                if c is not None and c.this is not None and i.short.startswith(GGS + '::'):
                    if init in api.alternatives(s, c.this) and '~' not in i.short:
                        ctx.count('uses of the groups')
                        ok = not gone and any(x.op == 'not' and x.args[0].op == 'peq' and init in x.args[0].args and NULL in x.args[0].args
                                              for x in s.facts(i.blk))
                        ctx.expect(ok, '%s:use:%s' % (name, i.short.split('::')[-1]), i.where,
                                   'the groups are used without a test that the dataset is grouped')
                if i.op == 'invoke':
                    n, u = i.get('succ')
                    if not i.get('nounwind'):
                        work.append((u, st))
                    work.append((n, (st[0], st[1], built | done, st[3])))
                    break
            if i.op == 'ret':
                exits.append((i, st, 'return'))
            elif i.op == 'resume':
                exits.append((i, st, 'raise'))
            elif i.op in ('br', 'switch'):
                for n in f.blocks[b].succs:
                    if not api.dead_edge(s, b, n):
                        work.append((n, st))
    # ---------------------------------------------------------------- exits
    for i, (fld, gone, built, dead), kind in exits:
        if kind == 'return' and dtor:
            ctx.expect(gone or null_known(s, i, init) or fld != 'init', '%s:destroyed' % name, i.where, 'the groups outlive the dataset')
            continue
        what = 'returning' if kind == 'return' else 'failing in %s' % (i.short or 'a called function') if i.is_call else 'failing'
        if kept and kind == 'raise' and (fld != 'init' or gone):
            ok, why = False, 'the groups of the dataset are lost'
        elif fld == 'init':
            ok, why = not gone or null_known(s, i, init), 'the dataset still shows groups that were destroyed'
        elif fld == 'null':
            ok, why = True, ''
        elif fld == 'other':
            ok, why = False, 'the dataset shows groups of unknown origin'
        elif kind == 'raise':
            ok, why = False, 'the dataset counts as grouped although the operation failed'
        else:
            ok, why = fld in built and fld not in dead, 'the dataset shows groups that were not completely built'
        ctx.count('exits')
        ctx.expect(ok, '%s:%s' % (name, 'return' if kind == 'return' else 'failure'), i.where, '%s when %s' % (why, what))
        for x in built:
            if kind == 'return' and x is not fld:
                ctx.expect(x in dead, '%s:lost' % name, i.where, 'groups that were built are neither shown nor released')
    return len(pub)


def null_known(s, i, init):
    return any(x.op == 'peq' and init in x.args and NULL in x.args for x in s.facts(i.blk))
