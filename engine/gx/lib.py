"""Anchors inside the library: what the accessors of a class identify, returns, exceptions, dataset invariants."""
from . import api, build
from .core import AnalysisBroken
from .paths import split, rewrite, edge, contradiction
from .prove import Prover
from .terms import T, mk, const, poly, mkpoly, padd, add, mul, ptr_parts, ptr_add, subterms, le0, eq0, NULL, UNDEF

INL = ['inline\t' + x for x in build.INLINE_STD]
TS = 'genex::TimeSeries'
SET = 'genex::TimeSeriesSet'
GSET = 'genex::GroupableTimeSeriesSet'
GGS = 'genex::GlobalGroupSpace'
LGS = 'genex::LocalLengthGroupSpace'
GRP = 'genex::Group'


def proper(r):
    """the functions a pattern names, not the unnamed ones written inside them"""
    return "^(?!.*'lambda)" + r[1:] if r.startswith('^') else r


def plan(roots, keep=(), inline=()):
    return ['root\t' + proper(r) for r in roots] + ['keep\t' + proper(k) for k in keep] + ['inline\t' + k for k in inline] + INL


def rets(fn):
    return [i for b in fn.rpo for i in [fn.blocks[b].term] if i.op == 'ret']


def throws(fn):
    return [i for i in fn.instrs() if i.is_call and i.short == '__cxa_throw']


class Roles:
    """fields of a class identified by what its accessors return (so that renaming or moving fields does not matter)"""

    def __init__(self, ctx, cls, accessors, part='lib'):
        self.off = {}
        self.kind = {}
        p = ctx.prog(plan([r'^%s::(%s)\(' % (cls, '|'.join(accessors))]), part)
        for a in accessors:
            f = ctx.one(p, cls + '::' + a)
            s = ctx.sym(f, p)
            ts = set()
            for r in rets(f):
                if r.ops:
                    v = s.val(r.ops[0])
                    for (w,), _ in split(s, [v], s.facts(r.blk)):
                        ts.add(w)
            if len(ts) != 1:
                raise AnalysisBroken('%s::%s no longer returns one field' % (cls, a))
            t = ts.pop()
            this = s.argByName.get('this')
            if t.op == 'ld':
                q, kind = t.args[0], 'field'
                if q.op == 'elem':
                    q, kind = q.args[0], 'elem'
            else:
                q, kind = t, 'addr'
            r, o = ptr_parts(q)
            if r is not this or set(o) - {()}:
                raise AnalysisBroken('%s::%s no longer returns a field of the object' % (cls, a))
            self.off[a] = o.get((), 0)
            self.kind[a] = kind

    def at(self, base, a):
        """address of the field behind accessor a in the object at base"""
        o = self.off[a]
        return ptr_add(base, {(): o} if o else {})


def ts_roles(ctx):
    return Roles(ctx, TS, ['getLength', 'getIndex', 'getStart', 'getEnd', 'getData'])


def set_roles(ctx):
    return Roles(ctx, SET, ['getItemCount', 'getMaxLength', 'getItemLength', 'isLoaded_'][:3])


def field_at(s, p, base_off):
    return ptr_add(p, {(): base_off} if base_off else {})


def only_own_exceptions(ctx, s, what):
    """every throw in the flattened function is the library's exception"""
    for i in throws(s.fn):
        t = api.throw_type(s, i)
        ctx.expect(t == api.GENEX_EXC, '%s-exception' % what, i.where,
                   '%s raises something other than the library exception' % what)


def name_of(p):
    """last component of the field name of a pointer term"""
    return p.note.split('::')[-1] if p.note else None


def fields_named(s, name):
    """addresses of the field of that name occurring in the function"""
    out = set()
    for k in s.universe:
        if name_of(k[0]) == name:
            out.add(k[0])
    return out


def ways(s, b, depth=6):
    """the ways to enter block b (merges on the way resolved), as lists of facts"""
    fn = s.fn
    ps = [p for p in fn.blocks[b].preds if not api.dead_edge(s, p, b)]
    if b in fn.loops or not ps or depth == 0:
        return [list(s.facts(b))]
    out = []
    for p in ps:
        e = edge(s, p, b)
        for fs in ways(s, p, depth - (1 if len(ps) > 1 else 0)):
            nf = list(dict.fromkeys(list(fs) + e))
            if not contradiction(nf):
                out.append(nf)
    return out


def length_axiom(ts):
    """a series never has a negative length"""
    def ax(a):
        if a.op == 'ld' and a.args[1] == 'i32' and a.note and a.note.startswith(TS + '::') and \
                ptr_parts(a.args[0])[1].get((), 0) == ts.off['getLength']:
            return [{(a,): -1}]
        return []
    return ax


def root_of(p):
    """object the address lies in, following stored addresses back"""
    while True:
        r, _ = ptr_parts(p)
        if r.op in ('elem', 'node', 'sdata', 'ld'):
            p = r.args[0]
            continue
        return r


def stable_args(r):
    """option for the value analysis: what the arguments refer to is not changed behind the function's back"""
    r = root_of(r)
    return r.op == 'arg' and r.args[1] != 'sret'


def place(t):
    """address the value t was read from (the value there may have been merged), or None"""
    if t.op == 'ld':
        return t.args[0]
    if t.op == 'phi' and t.args[2][0] == 'm':
        return t.args[2][1]
    return None


def congruent(s):
    """merged values that are equal because everything merged into them is: {phi: representative}"""
    rep, out = {}, {}
    for a in sorted((a for a in s.minc if a.op == 'phi'), key=lambda a: a.uid):
        k = (a.args[0], a.args[1], frozenset((b, v.uid) for b, v in s.minc[a].items()))
        if k in rep:
            out[a] = rep[k]
        else:
            rep[k] = a
    return out
