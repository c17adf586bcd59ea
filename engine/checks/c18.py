"""Computing a distance leaves nothing behind.

Every function that takes two series and a bound is flattened (found by its
parameter types).  Effects: each store and each changing call must concern
memory created by the call itself, the alignment on paths where it was empty on
entry, or the one-time guarded initialisation of a function-local object; the
objects such statics refer to, globals, and the two series are never written.
Ownership: every allocation is either released exactly once on every path to a
return, in the matching form, or put into one cell of a table whose cells are
all released exactly once by a complete sweep that every such path passes; no
two stores of fresh memory can hit the same cell and no cell receives memory
owned by another one.  The dummy alignment is only ever handed to distance
computations and is never empty.
"""
import re

from gx import api
from gx.lib import *
from gx.loops import ranges, iter_skips, loops_of, edge_cond
from gx.walk import walks
from gx.kbest import is_dist_call
from gx.models import size_of
from gx import build
from checks.c15 import DIST, LOW, bounded_args

RULE = 'effect analysis with escape of locally created memory; allocation and release pairing on all paths'
NEW = {'operator new': 'operator delete', 'operator new[]': 'operator delete[]', 'malloc': 'free', 'calloc': 'free'}
PURE = re.compile(r'^(gx\.|llvm\.(?!memcpy|memmove|memset)|__cxa_|std::numeric_limits|std::(abs|fabs|sqrt|pow|floor|ceil|isnan|isinf|max|min|move|forward)$|'
                  r'(sqrt|pow|fabs|floor|ceil|log|exp|round)$|std::runtime_error|std::__new_allocator|std::allocator|_Unwind)')


def run(ctx):
    p = ctx.prog(plan([DIST, LOW], [DIST, LOW, r'^genex::TimeSeries::(?!getLength|operator\[\])']))
    fs = [f for f in p.funcs.values() if bounded_args(f)]
    n = 0
    for f in fs:
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        k = Kernel(ctx, f, s)
        k.effects()
        k.allocations()
        n += not re.search(LOW, f.dem)
        ctx.count('functions')
    ctx.require(n >= 2, 'the distance computations were not found')
    dummy(ctx)


class Kernel:
    def __init__(self, ctx, f, s):
        self.ctx, self.f, self.s = ctx, f, s
        self.key = re.search(r'(\w+(<[^()]*>)?)\(genex::TimeSeries', f.dem).group(1).replace('genex::', '')
        ps = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] not in ('this', 'sret')]
        self.align = ps[2] if len(ps) > 2 else None

    # ------------------------------------------------------------ effects
    def local(self, t, seen=None):
        """the address t lies in memory this call created"""
        s = self.s
        seen = set() if seen is None else seen
        if t in seen:
            return True
        seen.add(t)
        r, _ = ptr_parts(t)
        if r.op in ('alloca', 'new'):
            return True
        if r.op in ('elem', 'ld', 'node', 'sdata', 'vit', 'made', 'upd', 'dead'):
            return isinstance(r.args[0], T) and self.local(r.args[0], seen)
        if r.op == 'phi':
            if r.args[2][0] == 'm' and not self.local(r.args[2][1], seen):
                return False
            return r in s.minc and all(self.local(v, seen) for v in s.minc[r].values())
        if r.op == 'sel':
            return self.local(r.args[1], seen) and self.local(r.args[2], seen)
        if r is NULL or r is UNDEF or r.op == 'int':
            return True
        return False

    def guarded(self, b):
        """inside the one-time initialisation of a function-local static"""
        for x in self.s.facts(b):
            if x.op == 'not' and x.args[0].op == 'eq0' and any(y.op == 'call' and y.args[0] == '__cxa_guard_acquire' for y in subterms(x)):
                return True
        return False

    def asked(self, b):
        """the alignment was empty when the function was called"""
        if self.align is None:
            return False
        pr = Prover(self.s)
        n = mk('size', mk('ld', self.align, 'obj', ()))
        return pr.le(n, const(0), self.s.facts(b))

    def effects(self):
        ctx, f, s, key = self.ctx, self.f, self.s, self.key
        for i in f.instrs():
            if i.op == 'store':
                p = s.info[i.id]['ptr']
                ok = self.local(p) or ptr_parts(p)[0].op == 'global' and self.guarded(i.blk)
                if self.align is not None and base(p) is self.align and self.asked(i.blk):
                    ok = True
                ctx.expect(ok, key + ':writes', i.where, 'writes to something that outlives the call: %s' % str(p)[:80])
                ctx.count('stores')
            elif i.is_call:
                self.call(i)

    def call(self, i):
        ctx, f, s, key = self.ctx, self.f, self.s, self.key
        nm = i.short or ''
        if PURE.match(nm) or nm in NEW or nm in NEW.values() or i.op == 'intrinsic':
            return
        ctx.count('calls')
        info = s.info.get(i.id, {})
        args = info.get('args') or []
        if i.dem and (re.search(DIST, i.dem) or re.search(LOW, i.dem)):
            for n, a in enumerate(args):
                if n >= 3:
                    ctx.expect(a is self.align or self.local(a), key + ':alignment', i.where,
                               'another alignment than that of the call is handed on')
            return
        c = info.get('call')
        if c is not None and c.this is not None and i.dem:
            if i.dem.rstrip().endswith(') const'):
                return
            if nm in ('std::vector::operator[]', 'std::vector::begin', 'std::vector::end', 'std::vector::at', 'std::vector::data',
                      'std::vector::front', 'std::vector::back'):
                return
            if self.local(c.this):
                return
            if self.align is not None and base(c.this) is self.align:
                ctx.expect(self.asked(i.blk), key + ':unasked', i.where, 'the alignment is changed although none was asked for')
                ctx.count('changes of the alignment')
                return
            ctx.bad(key + ':writes', i.where, 'changes something that outlives the call (%s)' % nm)
            return
        ptrs = [a for a in args if isinstance(a, T) and (a.op in ('ptr', 'vit', 'elem', 'global', 'ld', 'new', 'alloca', 'phi') or a.op == 'arg' and a.args[2] == 'ptr')
                and not (a.op in ('ld', 'phi') and isnum(a))]
        bad = [a for a in ptrs if not self.local(a)]
        if self.align is not None and bad and all(base(a) is self.align for a in bad) and nm.startswith('std::'):
            ctx.expect(self.asked(i.blk), key + ':unasked', i.where, 'the alignment is changed although none was asked for')
            return
        ctx.expect(not bad and (nm.startswith(('std::', '__gnu_cxx::', 'llvm.memset')) or not ptrs and i.get('nounwind')), key + ':calls', i.where,
                   'calls something whose effects outlive the call or are not known (%s)' % (nm or i.dem))

    # ------------------------------------------------------------ allocations
    def allocations(self):
        ctx, f, s, key = self.ctx, self.f, self.s, self.key
        sites = [i for i in f.instrs() if i.is_call and i.short in NEW]
        dels = [i for i in f.instrs() if i.is_call and i.short in NEW.values()]
        cells = {}
        scal = []
        for i in sites:
            N = s.vals[i.id]
            st = [j for j in f.instrs() if j.op == 'store' and s.info[j.id]['val'] is N]
            ctx.count('allocations')
            if st and all(ptr_parts(s.info[j.id]['ptr'])[0].op == 'global' and self.guarded(j.blk) for j in st):
                continue
            at = {s.info[j.id]['ptr'] for j in st}
            if at:
                ok = len(at) == 1 and all(p.op == 'elem' for p in at)
                if ctx.expect(ok, key + ':owner', i.where, 'allocated memory is kept in more than one place'):
                    cells[i.id] = (i, at.pop())
            else:
                scal.append(i)
        for i in scal:
            self.released(i, dels)
        self.tables(cells, dels)
        # nothing else is released
        mine = {s.vals[i.id] for i in sites}
        for d in dels:
            v = s.info[d.id]['args'][0]
            ok = v in mine or v.op == 'phi' and self.local(v) or place(v) is not None and self.local(place(v))
            ctx.expect(ok, key + ':foreign', d.where, 'memory is released that this call did not allocate')

    def released(self, i, dels):
        ctx, f, s, key = self.ctx, self.f, self.s, self.key
        N = s.vals[i.id]
        hs = loops_of(f, i.blk)
        h = hs[-1] if hs else None
        own = {d.id for d in dels}
        for w, b, n in walks(s, i.blk, stop=lambda b, n: n == h if h is not None else False, limit=50000):
            ds = [d for d in w.instrs() if d.id in own and self.is_it(w, s.info[d.id]['args'][0], N)]
            ctx.expect(len(ds) == 1, key + ':released', i.where, 'allocated memory is %s on a way to return' %
                       ('never released' if not ds else 'released more than once'))
            for d in ds:
                ctx.expect(d.short == NEW[i.short], key + ':form', d.where, 'memory is released in another form than it was allocated')
                ctx.expect(loops_of(f, d.blk) == hs or set(loops_of(f, d.blk)) <= set(hs), key + ':repeated', d.where,
                           'memory is released again in every iteration')

    def is_it(self, w, v, N):
        v = w.res(v)
        if v is N:
            return True
        # merged around a loop that never changes it
        if v.op == 'phi' and v in self.s.minc:
            return all(x is N or x is v or self.same(x, v, N) for x in self.s.minc[v].values())
        return False

    def same(self, x, v, N):
        return x.op == 'phi' and x in self.s.minc and all(y is N or y is v or y is x for y in self.s.minc[x].values())

    def tables(self, cells, dels):
        """allocations kept in the cells of a table"""
        ctx, f, s, key = self.ctx, self.f, self.s, self.key
        pr = Prover(s)
        tabs = {}
        for i, p in cells.values():
            idx = []
            b = p
            while b.op == 'elem':
                idx.append(b.args[1])
                b = b.args[0]
            ctx.expect(b.op == 'alloca', key + ':owner', i.where, 'allocated memory is kept in a table that outlives the call')
            tabs.setdefault((b, len(idx)), []).append((i, p, idx[::-1]))
        for (M, n), es in tabs.items():
            ctx.count('tables of allocated memory')
            # sweep
            sweep = None
            for d in dels:
                q = place(s.info[d.id]['args'][0])
                if q is None:
                    continue
                ix = []
                b = q
                while b.op == 'elem':
                    ix.append(b.args[1])
                    b = b.args[0]
                if b is M and len(ix) == n:
                    sweep = (d, ix[::-1])
                    break
            if not ctx.expect(sweep is not None, key + ':released', es[0][0].where, 'memory kept in a table is never released'):
                continue
            d, ix = sweep
            hs = loops_of(f, d.blk)
            rs = []
            for k, h in enumerate(hs):
                rg = [r for r in ranges(s, h) if k < len(ix) and r.atom is ix[k] and r.lo is const(0) and not r.early and abs(r.step) == 1]
                rs.append(rg[0] if rg else None)
            def empty(b, x):
                c = edge_cond(s, b, x)
                return c is not None and c.op == 'peq' and NULL in c.args and s.info[d.id]['args'][0] in c.args
            full = len(hs) == n and all(rs) and all(not iter_skips(s, hs[k], [d] if k == n - 1 else [f.blocks[hs[k + 1]].ins[0]], empty) for k in range(n))
            ctx.expect(full, key + ':sweep', d.where, 'the release does not visit every cell of the table exactly once')

            def whole(k):
                """the sweep goes by the size of the table itself"""
                c = M
                for x in ix[:k]:
                    c = mk('elem', c, x)
                return rs[k].hi is size_of(s, s.peek(s.instate[hs[k]], c, 'obj'))
            for i, p, idx in es:
                ctx.expect(d.short == NEW[i.short], key + ':form', d.where, 'memory is released in another form than it was allocated')
                fs = s.facts(i.blk)
                if full:
                    # inside what is swept, and swept on every way to return
                    ok = all(whole(k) or pr.lt(idx[k], rs[k].hi, fs) for k in range(n))
                    ctx.expect(ok, key + ':outside', i.where, 'a cell outside the swept part of the table receives memory')
                    ok = not any(f.blocks[b].term.op == 'ret' for b in reach_without(f, i.blk, hs[0])) and i.blk not in f.reachable(hs[0])
                    ctx.expect(ok, key + ':swept', i.where, 'the function can return without releasing what is kept in the table')
                # each execution concerns another cell
                lh = loops_of(f, i.blk)
                ok = all(any(r.atom in idx and r.step != 0 for r in ranges(s, h)) for h in lh)
                ctx.expect(ok, key + ':again', i.where, 'the same cell can receive fresh memory twice')
            for a in range(len(es)):
                for b in range(a + 1, len(es)):
                    (i, _, x), (j, _, y) = es[a], es[b]
                    fs = list(s.facts(i.blk)) + list(s.facts(j.blk))
                    ok = any(pr.lt(u, v, fs) or pr.lt(v, u, fs) for u, v in zip(x, y))
                    ctx.expect(ok or exclusive(f, i, j), key + ':again', j.where, 'a cell that already owns memory can receive fresh memory')
            # other stores into the table
            for j in f.instrs():
                if j.op != 'store':
                    continue
                q = s.info[j.id]['ptr']
                b, k = q, 0
                while b.op == 'elem':
                    b, k = b.args[0], k + 1
                if b is M and k == n:
                    v = s.info[j.id]['val']
                    ctx.expect(any(v is s.vals[i.id] and q is p for i, p, _ in es) or v is NULL, key + ':alias', j.where,
                               'a cell receives memory that another cell owns')


def exclusive(f, i, j):
    return i.blk not in f.reachable(j.blk) and j.blk not in f.reachable(i.blk)


def reach_without(f, b, stop):
    seen, work = set(), [x for x in f.blocks[b].succs]
    while work:
        x = work.pop()
        if x in seen or x == stop:
            continue
        seen.add(x)
        t = f.blocks[x].term
        work += [n for n in f.blocks[x].succs]
    return seen


def isnum(a):
    ty = a.args[1] if a.op == 'ld' else (a.args[2][2] if a.args[2][0] == 'm' else None)
    return ty not in ('ptr', 'obj')


# ------------------------------------------------------------------ dummy alignment
def dummy(ctx):
    """globals handed to distance computations as alignment"""
    p = ctx.prog(['index'] + plan([r'^genex::cascadeDistance\(']))
    vs = {n for n, g in p.globals.items() if not g.get('const') and 'std::vector' in g['ty'] and g.get('file', '').startswith(build.REPO)}
    users = [d for d in p.index.values() if d.get('repo') and vs & set(d.get('uses', ()))]
    ex = ['^' + re.escape(d['dem']) + '$' for d in users]
    ctx.require(users, 'no alignment is handed to distance computations when none is wanted')
    q = ctx.prog(plan(ex, ex + [DIST, LOW]))
    names = {d['name'] for d in users}
    fs = [(f, ctx.sym(f, q, nogate=True)) for f in q.funcs.values() if f.name in names]

    def takes(s, i, n):
        return n == 3 and (is_dist_call(s, i) or i.dem and re.search(DIST, i.dem))
    C = set()
    for f, s in fs:
        for i in f.instrs():
            for n, v in enumerate(s.info.get(i.id, {}).get('args') or []) if i.is_call else ():
                if isinstance(v, T) and v.op == 'global' and takes(s, i, n):
                    C.add(v)
    ctx.require(C, 'no alignment is handed to distance computations when none is wanted')
    made = set()
    for f, s in fs:
        init = f.short.startswith('__cxx_global_var_init')
        for i in f.instrs():
            vals = []
            if i.op == 'store':
                vals = [(None, s.info[i.id]['ptr']), (None, s.info[i.id]['val'])]
            elif i.is_call:
                vals = list(enumerate(s.info.get(i.id, {}).get('args') or []))
            for n, v in vals:
                if not isinstance(v, T):
                    continue
                g = base(v)
                if g not in C:
                    continue
                if init:
                    c = s.info.get(i.id, {}).get('call')
                    if c is not None and c.isctor and c.this is g:
                        pr = Prover(s)
                        k = size_of(s, s.peek(s.outstate[i.blk], g, 'obj'))
                        if pr.lt(const(0), k, s.facts(i.blk)) or any(x.op == 'int' and x.args[0] > 0 for x in c.params):
                            made.add(g)
                    continue
                ctx.expect(v is g and i.is_call and takes(s, i, n), 'dummy:use', i.where,
                           'the alignment used when none is wanted is used for something else')
                ctx.count('uses of the dummy alignment')
    for g in C:
        ctx.expect(g in made, 'dummy:empty', p.globals[g.args[0]].get('file', '?'), 'the alignment used when none is wanted may be empty')


def base(t):
    """object an address or iterator belongs to"""
    while True:
        r, _ = ptr_parts(t)
        if r.op in ('elem', 'node', 'sdata', 'ld', 'vit'):
            t = r.args[0]
            continue
        return r
