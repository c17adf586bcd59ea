"""Parallel grouping is free of races and gives the same groups.

The piece of work handed to the pool is found from the instantiation of the submitting function and
flattened completely, down to the standard library.  Ownership: the target of every store and of every changing call
must be created by the task itself, or be the task's own slot of the table of lengths, where the slot number is the loop counter that
was captured by value; pointers read back from such objects count as owned only if nothing else is
ever stored in that field.  Everything else is only read, is an atomic, or is an output stream
of the standard library; slots of other tasks are not even read.  Values read from atomics or clocks may only decide what is printed.
The distance computations are checked for the absence of lasting effects as well.  The submitting function is
checked for what it touches between the first submission and the last result, for submitting once per length, for asking
each result once, summing all of them, and for destroying its pool on all ways out.  Both forms of grouping must agree:
same work per length (object built, slot, distance, threshold), same range of lengths, same settings left behind, same total.
"""
import re

from gx import api
from gx.lib import *
from gx.loops import ranges, once, loops_of, edge_cond, exceptional
from gx.models import size_of
from checks.c15 import DIST, LOW, bounded_args
from checks.c18 import Kernel

RULE = 'effect and ownership analysis of the task; interference with the submitting thread; agreement of both forms'
WORK = LGS + '::generateGroups'
POOL = 'ThreadPool'
ACCESS = ('operator[]', 'at', 'begin', 'end', 'data', 'front', 'back', 'find', 'size', 'empty')
UNSAFE = ('rand', 'srand', 'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'setlocale', 'drand48', 'lrand48', 'random', 'srandom', 'getpwnam', 'strerror')
PURE = re.compile(r'^(gx\.|llvm\.(?!memcpy|memmove|memset)|__cxa_(allocate|free)_exception|__cxa_throw|__cxa_begin_catch|__cxa_end_catch|__cxa_rethrow|__clang_call_terminate|'
                  r'std::numeric_limits|std::(abs|fabs|sqrt|pow|floor|ceil|isnan|isinf|max|min)$|'
                  r'(sqrt|pow|fabs|floor|ceil|log|exp|round)$|_Unwind|std::terminate|__cxa_guard_)')
NEW = ('operator new', 'operator new[]')
DEL = ('operator delete', 'operator delete[]')
STREAM = re.compile(r'std::(basic_)?ostream|std::ios|std::endl|std::flush')
OUT = ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog')


def run(ctx):
    keep = [r'(^| )%s::' % POOL, '^%s::' % LGS, r'^genex::(getDistanceFromName|TimeSeriesSet::)']
    p = ctx.prog(['index'] + plan(['^%s::' % GGS], keep))
    par = [f for f in p.funcs.values() if f.short.startswith(GGS + '::') and any(i.is_call and i.short == POOL + '::' + POOL for i in f.instrs())]
    ctx.require(len(par) == 1, 'there is not one function that groups with a pool')
    par = par[0]
    enq = [i for i in par.instrs() if i.is_call and i.short == POOL + '::enqueue']
    ctx.require(enq, 'nothing is submitted to the pool')
    seq = [f for f in p.funcs.values() if f.short.startswith(GGS + '::') and f is not par
           and any(i.is_call and i.short == WORK and loops_of(f, i.blk) for i in f.instrs())]
    ctx.require(len(seq) == 1, 'there is not one function that groups without a pool')
    seq = seq[0]
    m = re.search(r'%s::enqueue<(.*)>\(' % POOL, enq[0].dem)
    lam = m.group(1) if m else ''
    k = depth_cut(lam)
    lam = lam[:k]
    name = [n for n, x in p.index.items() if x['dem'].startswith(lam + '::operator()')]
    ctx.require(len(name) == 1, 'what is submitted to the pool is not a function object of this repository')
    dem = p.index[name[0]]['dem']
    # the same object without and with everything inside
    small = p.funcs.get(name[0])
    pf = ctx.prog(plan(['^' + re.escape(dem) + '$']))
    big = pf.funcs.get(name[0])
    ctx.require(small is not None and big is not None, 'the task is not analysed')

    M = Main(ctx, p, par, enq)
    if M.r is None:
        return
    cap = M.captured()
    S = ctx.sym(small, p, nogate=True, stable=stable_args)
    own = Own(ctx, S, cap)
    W = work(ctx, S, own, None)
    F = ctx.sym(big, pf, nogate=True, stable=stable_args)
    T_ = Task(ctx, p, F, Own(ctx, F, cap), W)
    T_.effects()
    T_.decisions()
    M.concurrent(T_.fields(), W)
    M.results()
    M.lifetime()
    swallow(ctx, M.s)
    swallow(ctx, F)
    sequential(ctx, p, seq, W, M)
    threads(ctx, M)
    # the computations called by the tasks
    pd = ctx.prog(plan([DIST, LOW], [DIST, LOW, r'^genex::TimeSeries::(?!getLength|operator\[\])']))
    n = 0
    for f in pd.funcs.values():
        if bounded_args(f):
            Kernel(ctx, f, ctx.sym(f, pd, nogate=True, stable=stable_args)).effects()
            n += 1
    ctx.require(n >= 2, 'the distance computations were not found')
    ctx.assume('what the pool does with a task is decided by C10')


def depth_cut(t):
    d = 0
    for k, c in enumerate(t):
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        elif c == ',' and d == 0:
            return k
    return len(t)


def swallow(ctx, s):
    f = s.fn
    c = [i for i in f.instrs() if i.is_call and i.short == '__cxa_begin_catch']
    for i in c:
        ok = not any(f.blocks[b].term.op == 'ret' for b in f.reachable(i.blk) | {i.blk})
        ctx.expect(ok, 'swallowed', i.where, 'a failure is caught and not reported')
    ctx.ok('%s: no failure is swallowed' % f.short)


class Own:
    """what the function object of the task captured"""

    def __init__(self, ctx, s, cap):
        self.s = s
        this = s.argByName['this']
        self.obj, self.idx = [], []
        for off, k in cap.items():
            q = ptr_add(this, {(): off} if off else {})
            if k == 'this':
                self.obj.append(mk('ld', q, 'ptr', ()))
            elif k == 'index':
                self.idx += [mk('ld', q, t, ()) for t in ('i32', 'i64')]
        self.ref = [off for off, k in cap.items() if k == 'ref']

    def is_obj(self, t):
        return t in self.obj

    def is_idx(self, t):
        return t in self.idx

    def field(self, q):
        """offset in the grouping object"""
        if q is None:
            return None
        r, o = ptr_parts(q)
        return o.get((), 0) if r in self.obj and not set(o) - {()} else None


class This(Own):
    def __init__(self, s, atom):
        self.s, self.obj, self.idx, self.ref = s, [s.argByName['this']], [atom], []


def where_from(own, t):
    """field of the grouping object a value comes from"""
    q = place(t)
    return own.field(q) if q is not None else None


def stored(s, own, t):
    """field of the grouping object the value was put into before"""
    for i in s.fn.instrs():
        if i.op == 'store' and s.info[i.id]['val'] is t:
            o = own.field(s.info[i.id]['ptr'])
            if o is not None:
                return o
    return None


def work(ctx, s, own, h):
    """the work for one length: (slots, dataset, distance, threshold) as fields of the grouping object"""
    f = s.fn
    g = [i for i in f.instrs() if i.is_call and i.short == WORK]
    if not ctx.expect(len(g) == 1, 'work', f.where, 'the groups of a length are not generated exactly once'):
        return None
    g = g[0]
    if h is None:
        ok = not loops_of(f, g.blk) and not any(api.reaches_without(s, r, [g]) for r in rets(f))
    else:
        ok = once(s, h, [g])
    ctx.expect(ok, 'work', g.where, 'the groups of a length are not generated exactly once')
    a = s.info[g.id]['args']
    obj = a[0]
    mk_ = [i for i in f.instrs() if i.is_call and i.short == LGS + '::' + LGS.split('::')[-1] and s.info[i.id]['args'][0] is obj]
    if not ctx.expect(obj.op == 'new' and len(mk_) == 1, 'work', g.where, 'the groups of a length are not generated in a new object'):
        return None
    b = s.info[mk_[0].id]['args']
    ctx.expect(own.is_idx(b[2]), 'length', mk_[0].where, 'the object is not built for the length of the task')
    slot = [(i, s.info[i.id]['ptr']) for i in f.instrs() if i.op == 'store' and s.info[i.id]['val'] is obj]
    ok = len(slot) == 1 and slot[0][1].op == 'elem' and own.is_idx(slot[0][1].args[1]) and own.field(slot[0][1].args[0]) is not None
    ctx.expect(ok, 'slot', g.where, 'the groups of a length are not kept in the slot of that length')
    if not ok:
        return None
    ctx.expect((not api.reaches_without(s, rets(f)[0], [slot[0][0]])) if h is None else once(s, h, [slot[0][0]]), 'slot', g.where,
               'the groups of a length are not always kept')
    r = [where_from(own, b[1])] + [where_from(own, x) if where_from(own, x) is not None else stored(s, own, x) for x in a[1:3]]
    ctx.expect(None not in r, 'inputs', g.where, 'the groups of a length are generated from something other than the settings of the grouping')
    return {'slots': own.field(slot[0][1].args[0]), 'in': tuple(r), 'call': g}


class Task:
    def __init__(self, ctx, p, s, own, W):
        self.ctx, self.p, self.s, self.f, self.own, self.W = ctx, p, s, s.fn, own, W
        self.dead = {b for b in self.f.rpo if any(x.op == 'false' for x in s.facts(b))}
        self.kept = {}
        self.no = set()
        for i in self.f.instrs():
            if i.op == 'store' and i.blk not in self.dead and i.get('sty') == 'ptr':
                self.kept.setdefault(self.key(s.info[i.id]['ptr']), set()).add(s.info[i.id]['val'])
            elif i.is_call and i.short in ('std::vector::push_back', 'std::vector::emplace_back') and i.blk not in self.dead:
                a = s.info[i.id]['args']
                v = s.peek(api.state_before(s, i), a[1], 'ptr') if len(a) > 1 else None
                self.kept.setdefault(('elem', self.key(a[0])), set()).add(v)

    def key(self, q):
        if q.op == 'elem':
            return ('elem', self.key(q.args[0]))
        r, o = ptr_parts(q)
        if r.op == 'elem' and not o:
            return ('elem', self.key(r.args[0]))
        o = o.get((), 0) if not set(o) - {()} else '?'
        return (o, q.note if o else None)

    def slot(self, q):
        """index if q is a slot of the table of lengths"""
        while q.op in ('ptr', 'elem', 'vit'):
            if q.op in ('elem', 'vit'):
                if self.own.field(q.args[0]) == self.W['slots']:
                    return q.args[1]
                q = q.args[0]
            else:
                q = ptr_parts(q)[0]
        return None

    def mine(self, t, seen=None):
        """address in memory only this task uses"""
        if t in self.no:
            return False
        r = self.mine_(t, set() if seen is None else seen)
        if not r:
            self.no.add(t)
        return r

    def mine_(self, t, seen):
        s = self.s
        if t in seen:
            return True
        seen.add(t)
        if t is NULL or t is UNDEF:
            return True
        r, _ = ptr_parts(t)
        if r is NULL:
            return True
        if r.op in ('alloca', 'new'):
            return True
        if r.op == 'global':
            return bool(self.p.globals.get(r.args[0], {}).get('tls'))
        if r.op in ('elem', 'vit'):
            k = self.slot(r)
            if k is not None:
                return self.own.is_idx(k)
            return self.mine(r.args[0], seen)
        if r.op == 'phi' and r.args[2][0] == 'm' or r.op == 'ld':
            q = place(r)
            if not self.mine(q, seen):
                return False
            if self.slot(q) is not None:
                return True
            vs = self.kept.get(self.key(q), set())
            ok = bool(vs) and all(v is not None and self.mine(v, seen) for v in vs)
            if r.op == 'phi' and not ok and r in s.minc:
                ok = all(self.mine(v, seen) for v in s.minc[r].values())
            return ok
        if r.op == 'phi':
            return r in s.minc and all(self.mine(v, seen) for v in s.minc[r].values())
        if r.op == 'sel':
            return self.mine(r.args[1], seen) and self.mine(r.args[2], seen)
        if r.op in ('made', 'upd', 'dead', 'sdata', 'node'):
            return isinstance(r.args[0], T) and self.mine(r.args[0], seen)
        return False

    def stream(self, t):
        r, _ = ptr_parts(t)
        if r.op == 'global':
            return r.args[0] in OUT
        if r.op == 'ret':
            j = self.f.by_id.get(r.args[1])
            return j is not None and j.is_call and bool(STREAM.search(j.dem or '')) and self.stream(self.s.info[j.id]['args'][0])
        return self.mine(t)

    def effects(self):
        ctx, s, f = self.ctx, self.s, self.f
        for i in f.instrs():
            if i.blk in self.dead:
                continue
            if i.op == 'store':
                q = s.info[i.id]['ptr']
                ctx.count('stores of the task')
                ctx.expect(self.mine(q) or atomic(i), 'write', i.where, 'a task writes to something other tasks use: %s' % str(q)[:80])
            elif i.op == 'load':
                self.reads(i, s.info[i.id]['ptr'])
            elif i.op in ('atomicrmw', 'cmpxchg'):
                ctx.count('atomics')
            elif i.is_call:
                self.call(i)

    def reads(self, i, q):
        for x in [q] + [y for y in subterms(q) if isinstance(y, T) and y.op in ('elem', 'vit')]:
            k = self.slot(x) if x.op in ('elem', 'vit', 'ptr') else None
            if k is not None:
                self.ctx.expect(self.own.is_idx(k), 'read', i.where, 'a task reads the slot of another task')
        r = ptr_parts(q)[0]
        for off in self.own.ref:
            if r.op == 'ld' and ptr_parts(r.args[0])[0] is self.s.argByName['this'] and ptr_parts(r.args[0])[1].get((), 0) == off:
                self.ctx.count('variables captured by reference')

    def call(self, i):
        ctx, s = self.ctx, self.s
        n = i.short or ''
        a = s.info.get(i.id, {}).get('args') or []
        ctx.count('calls of the task')
        if n in UNSAFE:
            ctx.bad('unsafe', i.where, 'a task calls %s, which keeps state shared by all threads' % n)
            return
        if PURE.match(n) or n in NEW:
            return
        if n in DEL:
            ctx.expect(self.mine(a[0]), 'delete', i.where, 'a task releases something other tasks use')
            return
        if n.startswith('llvm.mem'):
            ctx.expect(self.mine(a[0]), 'write', i.where, 'a task writes to something other tasks use')
            return
        if not i.dem:
            # computation chosen by name: the series are only read or belong to the task, the rest is decided below
            ctx.count('calls through a pointer')
            v = s.val(i.get('fn')) if i.get('fn') else None
            for x in a[:2]:
                ctx.expect(self.mine(x), 'series', i.where, 'a series other tasks use is given to a computation')
            return
        for x in a:
            if isinstance(x, T) and x.op in ('elem', 'vit', 'ptr'):
                self.reads(i, x)
        cls = n.rsplit('::', 1)[0]
        m = n.rsplit('::', 1)[-1]
        if cls in ('std::atomic', 'std::__atomic_base', 'std::__atomic_float', 'std::atomic_flag'):
            return
        if STREAM.search(i.dem.split('(')[0]) or n in ('std::operator<<', 'std::endl', 'std::flush'):
            if a and self.stream(a[0]):
                return
        c = s.info.get(i.id, {}).get('call')
        if c is None:
            bad = [x for x in a if ispointer(x) and not self.mine(x)]
            ctx.expect(not bad, 'call', i.where, 'a task hands something other tasks use to %s' % n)
            return
        bad = []
        if c.sret is not None and not self.mine(c.sret):
            bad.append(c.sret)
        if c.this is not None and not c.is_const and not (m in ACCESS and cls.startswith('std::')) and not self.mine(c.this):
            bad.append(c.this)
        for x, k in zip(c.params, c.cparams):
            if k is False and not self.mine(x) and ispointer(x) and not self.stream(x):
                bad.append(x)
        if not n.startswith(('std::', '__gnu_cxx::', 'operator')) and any(ispointer(x) and not self.mine(x) for x in a):
            bad = bad or [a[0]]
        ctx.expect(not bad, 'call', i.where, 'a task changes something other tasks use (%s)' % n)

    def fields(self):
        """fields of the grouping object the task uses"""
        out = set()
        for i in self.f.instrs():
            ps = []
            if i.op in ('load', 'store'):
                ps = [self.s.info[i.id]['ptr']]
            elif i.is_call:
                ps = [x for x in self.s.info.get(i.id, {}).get('args') or [] if isinstance(x, T)]
            for q in ps:
                for x in [q] + [y for y in subterms(q) if isinstance(y, T)]:
                    if x.op in ('ptr', 'ld', 'arg'):
                        o = self.own.field(x)
                        if o is not None:
                            out.add(o)
        return out

    def decisions(self):
        """what depends on time or on other tasks is only printed"""
        ctx, s, f = self.ctx, self.s, self.f
        taint = set()
        mem = set()
        pd = postdom(f)

        def source(i):
            n = i.short or ''
            if not i.is_call:
                return i.op in ('atomicrmw', 'cmpxchg') or i.op == 'load' and atomic(i)
            return n.startswith(('std::atomic', 'std::__atomic')) or n.endswith('::now') and 'chrono' in n or n in ('time', 'clock', 'gettimeofday') or \
                n in ('std::this_thread::get_id', 'pthread_self', 'std::thread::hardware_concurrency')
        change = True
        while change:
            change = False
            for i in f.instrs():
                if i.blk in self.dead or i.id in taint:
                    continue
                t = source(i) or any(o[0] == '%' and o[1] != 'a' and int(o[1:]) in taint for o in i.ops)
                if i.op == 'phi':
                    t = t or any(o[0] == '%' and o[1] != 'a' and int(o[1:]) in taint for o, _ in i.get('in'))
                    if not t:
                        # merges after a tainted decision
                        for b in f.rpo:
                            tb = f.blocks[b].term
                            if tb.id in taint and pd.get(b) == i.blk and len({o for o, _ in i.get('in')}) > 1:
                                t = True
                if i.op == 'load' and s.info[i.id]['ptr'] in mem:
                    t = True
                if i.is_call and any(isinstance(x, T) and x in mem for x in s.info.get(i.id, {}).get('args') or []):
                    t = True
                if t and i.op == 'store':
                    q = s.info[i.id]['ptr']
                    if q not in mem:
                        mem.add(q)
                        change = True
                if t:
                    taint.add(i.id)
                    change = True
        ctx.count('values depending on time or other tasks', len(taint))
        for i in f.instrs():
            if i.id not in taint:
                continue
            if i.op == 'store':
                ctx.expect(ptr_parts(s.info[i.id]['ptr'])[0].op == 'alloca', 'depends', i.where, 'what a task leaves behind depends on time or on other tasks')
            elif i.op == 'ret':
                ctx.bad('depends', i.where, 'the result of a task depends on time or on other tasks')
            elif i.op in ('br', 'switch') and len(set(i.get('succ'))) > 1:
                end = pd.get(i.blk)
                if not ctx.expect(end is not None, 'depends', i.where, 'the end of a task depends on time or on other tasks'):
                    continue
                seen, todo = set(), [x for x in i.get('succ') if x != end]
                while todo:
                    b = todo.pop()
                    if b in seen or b == end or exceptional(f, b):
                        continue
                    seen.add(b)
                    for j in f.blocks[b].ins:
                        if j.op == 'store':
                            ctx.expect(ptr_parts(s.info[j.id]['ptr'])[0].op == 'alloca', 'depends', j.where,
                                       'what a task leaves behind depends on time or on other tasks')
                        elif j.is_call:
                            self.printing(j)
                    todo += [x for x in f.blocks[b].succs]
            elif i.is_call and not source(i):
                self.printing(i)

    def printing(self, j):
        n = j.short or ''
        a = self.s.info.get(j.id, {}).get('args') or []
        c = self.s.info.get(j.id, {}).get('call')
        ok = bool(PURE.match(n)) or n.startswith(('std::atomic', 'std::__atomic', 'std::chrono')) or 'chrono' in n or \
            bool(STREAM.search(j.dem or '')) or n in NEW + DEL or n == 'std::operator<<' or \
            'to_string' in n or n == 'std::operator+' and 'basic_string' in j.dem or c is not None and (c.is_const or c.isdtor or 'basic_string' in n or 'chrono' in (j.dem or '') and n.startswith('std::'))
        self.ctx.expect(ok, 'depends', j.where, 'what a task does depends on time or on other tasks')


def atomic(i):
    return bool(i.get('atomic'))


def ispointer(x):
    return isinstance(x, T) and (x.op in ('ptr', 'vit', 'elem', 'global', 'alloca', 'new') or x.op == 'ld' and x.args[1] in ('ptr', 'obj')
                                 or x.op == 'arg' and x.args[2] == 'ptr')


def postdom(f):
    """immediate postdominators over ordinary control flow"""
    live = [b for b in f.rpo if not exceptional(f, b)]
    L = set(live)
    suc = {b: [x for x in f.blocks[b].succs if x in L] for b in live}
    full = set(live)
    pd = {b: ({b} if not suc[b] else set(full)) for b in live}
    ch = True
    while ch:
        ch = False
        for b in reversed(live):
            if suc[b]:
                n = set.intersection(*[pd[x] for x in suc[b]]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
    out = {}
    for b in live:
        c = pd[b] - {b}
        out[b] = next((x for x in c if len(pd[x]) == len(c)), None)
    return out


class Main:
    def __init__(self, ctx, p, f, enq):
        self.ctx, self.p, self.f, self.enq = ctx, p, f, enq
        self.s = ctx.sym(f, p, nogate=True)
        s = self.s
        ctx.expect(len(enq) == 1, 'submit', enq[0].where, 'work is submitted in several places')
        self.e = enq[0]
        ls = loops_of(f, self.e.blk)
        ctx.require(len(ls) == 1, 'work is not submitted in a loop over the lengths')
        self.h = ls[0]
        rs = [r for r in ranges(s, self.h) if r.step == 1 and not r.early]
        self.r = rs[0] if rs else None
        if not ctx.expect(rs, 'lengths', self.e.where, 'the lengths submitted are not a range counted by a variable of this function alone'):
            return
        ctx.expect(once(s, self.h, [self.e]), 'submit', self.e.where, 'not every length is submitted exactly once')

    def captured(self):
        """what is stored in the function object handed over: offset -> this / index / ref / value"""
        s = self.s
        a = s.info[self.e.id]['args']
        obj = a[-1]
        out = {}
        this = s.argByName['this']
        for i in self.f.instrs():
            if i.op == 'store' and self.f.dominates(i.blk, self.e.blk):
                r, o = ptr_parts(s.info[i.id]['ptr'])
                if r is obj and not set(o) - {()}:
                    v = s.info[i.id]['val']
                    out[o.get((), 0)] = 'this' if v is this else 'index' if v is self.r.atom else 'ref' if v.op == 'alloca' else 'value'
        self.ctx.require('this' in out.values(), 'the task does not refer to the grouping object')
        self.ctx.expect('index' in out.values(), 'index', self.e.where, 'the task is not given its length by value')
        self.refs = {s.info[i.id]['val'] for i in self.f.instrs() if i.op == 'store' and ptr_parts(s.info[i.id]['ptr'])[0] is obj
                     and s.info[i.id]['val'].op == 'alloca'}
        return out

    def get(self):
        return [i for i in self.f.instrs() if i.is_call and i.short in ('std::future::get', 'std::shared_future::get')]

    def concurrent(self, used, W):
        """between the first submission and the last result"""
        ctx, s, f = self.ctx, self.s, self.f
        own = This(s, None)
        g = self.get()
        after = set()
        if len(g) == 1 and loops_of(f, g[0].blk):
            h = loops_of(f, g[0].blk)[0]
            after = {b for b in f.rpo if b not in f.loops[h] and b != h and f.dominates(h, b) and not exceptional(f, b)}
        region = (f.reachable(self.e.blk) | {self.e.blk}) - after
        ctx.count('blocks that run beside the tasks', len(region))
        for i in (i for i in f.instrs() if i.blk in region):
            if i.op == 'store':
                q = s.info[i.id]['ptr']
                o = own.field(q)
                r = root_of(q)
                if r.op == 'alloca':
                    ctx.expect(ptr_parts(q)[0] not in self.refs, 'beside', i.where, 'a variable the tasks refer to is changed while they run')
                else:
                    ctx.expect(o is not None and o not in used, 'beside', i.where, 'something the tasks use is changed while they run')
            elif i.op == 'load':
                q = s.info[i.id]['ptr']
                ctx.expect(not slot_elem(own, q, W), 'beside', i.where, 'the groups of a length are read while a task generates them')
            elif i.is_call:
                n = i.short or ''
                c = s.info.get(i.id, {}).get('call')
                a = s.info.get(i.id, {}).get('args') or []
                for x in a:
                    if isinstance(x, T) and slot_elem(own, x, W):
                        ctx.bad('beside', i.where, 'the groups of a length are used while a task generates them')
                if n.startswith(POOL + '::') or PURE.match(n) or n in NEW + DEL:
                    continue
                if c is not None:
                    ch = ([c.this] if c.this is not None and not c.is_const and n.rsplit('::', 1)[-1] not in ACCESS else []) + \
                        [x for x, k in zip(c.params, c.cparams) if k is False] + ([c.sret] if c.sret is not None else [])
                    for x in ch:
                        r = root_of(x)
                        if r.op == 'alloca':
                            ctx.expect(ptr_parts(x)[0] not in self.refs, 'beside', i.where, 'a variable the tasks refer to is changed while they run')
                        elif r.op == 'global':
                            ctx.expect(r.args[0] in OUT, 'beside', i.where, 'a global is changed while the tasks run')
                        elif r.op != 'ret' and r.op != 'new':
                            o = own.field(x)
                            ctx.expect(o is not None and o not in used, 'beside', i.where, 'something the tasks use is changed while they run (%s)' % n)
                    if n.startswith('genex::'):
                        ctx.expect(c.is_const, 'beside', i.where, 'the library is changed while the tasks run (%s)' % n)

    def results(self):
        ctx, s, f = self.ctx, self.s, self.f
        g = self.get()
        if not ctx.expect(len(g) == 1 and len(loops_of(f, g[0].blk)) == 1, 'results', f.where, 'the results of the tasks are not all asked for'):
            self.total = None
            return
        g = g[0]
        h = loops_of(f, g.blk)[0]
        push = [i for i in f.instrs() if i.is_call and i.short in ('std::vector::emplace_back', 'std::vector::push_back') and 'future' in i.dem]
        ok = len(push) == 1 and once(s, self.h, push) and push[0].blk in f.loops[self.h]
        ctx.expect(ok, 'results', self.e.where, 'the result of a task is not kept')
        x = s.info[g.id]['args'][0]
        ok = False
        if push and x.op == 'elem' and x.args[0] is s.info[push[0].id]['args'][0]:
            fut = s.info[push[0].id]['args'][1]
            ctx.expect(fut is s.info[self.e.id]['args'][0], 'results', push[0].where, 'something other than the result of the task is kept')
            for r in ranges(s, h):
                size = size_of(s, s.peek(s.instate[h], x.args[0], 'obj'))
                d = {m: c for m, c in padd(poly(x.args[1]), {(r.atom,): 1}, -1).items() if c}
                lo, hi = mkpoly(padd(poly(r.lo), d)), mkpoly(padd(poly(r.hi), d))
                ok = ok or not set(d) - {()} and abs(r.step) == 1 and not r.early and lo is const(0) and hi is size
        ctx.expect(ok and once(s, h, [g]) and h != self.h, 'results', g.where, 'not every result is asked for exactly once')
        self.total = total(ctx, s, h, s.vals[g.id], g)

    def lifetime(self):
        """the pool ends, and its workers are joined, on all ways out"""
        ctx, s, f = self.ctx, self.s, self.f
        c = [i for i in f.instrs() if i.is_call and i.short == POOL + '::' + POOL]
        ctx.expect(len(c) == 1, 'pool', f.where, 'there is more than one pool')
        self.pool = c[0]
        P = s.info[c[0].id]['args'][0]
        ctx.expect(s.info[self.e.id]['args'][1] is P, 'pool', self.e.where, 'the work is submitted to another pool')
        d = [i for i in f.instrs() if i.is_call and i.short == POOL + '::~' + POOL and s.info[i.id]['args'][0] is P]
        stop = {i.blk for i in d}
        t = f.blocks[c[0].blk].term
        start = [t.get('succ')[0]] if t is c[0] else list(f.blocks[c[0].blk].succs)
        seen, todo = set(), start
        ok = bool(d) and P.op == 'alloca'
        while todo:
            b = todo.pop()
            if b in seen or b in stop:
                continue
            seen.add(b)
            if f.blocks[b].term.op in ('ret', 'resume'):
                ok = False
            todo += f.blocks[b].succs
        ctx.expect(ok, 'pool', c[0].where, 'the pool is not destroyed on all ways out, so tasks may outlive the call')


def slot_elem(own, q, W):
    for x in [q] + list(subterms(q)):
        if isinstance(x, T) and x.op in ('elem', 'vit') and own.field(x.args[0]) == W['slots']:
            return True
    return False


def total(ctx, s, h, x, at):
    """the sum over loop h of x is returned and reported"""
    f = s.fn
    this = s.argByName['this']
    rep = Roles(ctx, GGS, ['getTotalNumberOfGroups']).at(this, 'getTotalNumberOfGroups')
    acc, fld = None, None
    for a, inc in s.minc.items():
        if a.op == 'phi' and a.args[0] == f.name and a.args[1] == h and 'entry' in inc and inc['entry'] is const(0):
            if all(v is add(a, x) for k, v in inc.items() if k != 'entry'):
                acc = a
                if place(a) is not None:
                    fld = place(a)
    for i in f.instrs():
        if fld is None and i.op == 'store' and i.blk in f.loops[h]:
            q, v = s.info[i.id]['ptr'], s.info[i.id]['val']
            d = add(v, x, -1)
            if place(d) is q and once(s, h, [i]):
                # starts at zero, and nothing else changes it (what the tasks change is decided elsewhere)
                o = [j for j in f.instrs() if j.op == 'store' and s.info[j.id]['ptr'] is q and j is not i]
                if all(s.info[j.id]['val'] is const(0) and j.blk not in f.loops[h] for j in o) and any(f.dominates(j.blk, h) for j in o):
                    fld = q
    ok = acc is not None or fld is not None
    ctx.expect(ok, 'sum', at.where, 'the numbers of groups are not added up')
    for r in rets(f):
        v = s.val(r.ops[0])
        good = v is acc or fld is not None and place(v) is fld
        ctx.expect(good or not ok, 'sum', r.where, 'something other than the sum is returned')
        if fld is not rep:
            v = s.peek(api.state_before(s, r), rep, 'i32')
            ctx.expect(v is acc or not ok, 'sum', r.where, 'the number of groups reported later is not the sum')
    return True


def render(s, t, seen=()):
    """the value in terms that do not depend on the function it was computed in"""
    if not isinstance(t, T):
        return tuple(render(s, x, seen) for x in t) if isinstance(t, tuple) else t
    if t in seen:
        return ('again',)
    seen = seen + (t,)
    if t.op == 'arg':
        same = [a for a in s.argT if a.args[2] == t.args[2] and a.args[1] not in ('this', 'sret')]
        return ('arg', t.args[1] if t.args[1] in ('this', 'sret') else (t.args[2], same.index(t)))
    if t.op == 'ret':
        j = s.fn.by_id.get(t.args[1])
        return ('ret', j.dem, tuple(render(s, x, seen) for x in s.info.get(j.id, {}).get('args') or [] if isinstance(x, T)))
    if t.op == 'ld':
        return ('ld', render(s, t.args[0], seen), t.args[1])
    if t.op == 'phi':
        if t.args[2][0] == 'm':
            return ('ld', render(s, t.args[2][1], seen), t.args[2][2] if len(t.args[2]) > 2 else None)
        return ('phi', tuple(sorted({str(render(s, v, seen)) for v in s.minc.get(t, {}).values()})))
    if t.op == 'alloca':
        return ('local',)
    if t.op in ('global', 'int', 'fconst'):
        return (t.op,) + t.args
    if t.op in ('streq',):
        return (t.op, tuple(sorted(str(render(s, x, seen)) for x in t.args)))
    if t.op == 'poly' or not t.args:
        pass
    return (t.op,) + tuple(render(s, x, seen) if isinstance(x, (T, tuple)) else x for x in t.args)


def bounds(s, r):
    """range of the loop, with the conditions that select its start"""
    out = set()
    lo = r.lo
    if lo.op == 'phi' and lo in s.minc and lo.args[1] not in s.fn.loops:
        b = lo.args[1]
        base = set(s.facts(b))
        for q, v in s.minc[lo].items():
            fs = [x for x in list(s.facts(q)) + edge(s, q, b) if x not in base]
            out.add((str(render(s, v)), tuple(sorted(str(render(s, x)) for x in fs))))
    elif lo.op == 'sel':
        out.add((str(render(s, lo.args[1])), (str(render(s, lo.args[0])),)))
        out.add((str(render(s, lo.args[2])), (str(render(s, mk('not', lo.args[0]))),)))
    else:
        out.add((str(render(s, lo)), ()))
    return out, str(render(s, r.hi))


def settings(ctx, s, h, skip):
    """what is left in the grouping object apart from the groups: field -> values"""
    f = s.fn
    own = This(s, None)
    out = {}
    body = f.loops[h] if h is not None else set()

    def guard(b):
        return tuple(sorted(str(render(s, x)) for x in s.facts(b) if not any(y.op == 'phi' and y.args[1] in f.loops for y in [x] + list(subterms(x)) if isinstance(y, T))))
    for i in f.instrs():
        if i.blk in body or exceptional(f, i.blk):
            continue
        if i.op == 'store':
            o = own.field(s.info[i.id]['ptr'])
            if o is not None and o != skip:
                out.setdefault(o, set()).add((str(render(s, s.info[i.id]['val'])), guard(i.blk)))
        elif i.is_call:
            c = s.info.get(i.id, {}).get('call')
            if c is not None and c.this is not None and not c.is_const and own.field(c.this) is not None and i.short.rsplit('::', 1)[-1] not in ACCESS:
                st = api.state_before(s, i)
                ps = [str(render(s, s.peek(st, x, 'ptr') if x.op == 'alloca' else x)) for x in c.params]
                out.setdefault(own.field(c.this), set()).add((i.short, tuple(ps), guard(i.blk)))
    return out


def sequential(ctx, p, f, W, M):
    """grouping without a pool does the same"""
    s = ctx.sym(f, p, nogate=True)
    g = [i for i in f.instrs() if i.is_call and i.short == WORK][0]
    h = loops_of(f, g.blk)[0]
    rs = [r for r in ranges(s, h) if r.step == 1 and not r.early]
    if not ctx.expect(rs, 'agree-range', g.where, 'the lengths grouped are not a range'):
        return
    r = rs[0]
    w = work(ctx, s, This(s, r.atom), h)
    if w is None or W is None:
        return
    ctx.expect(w['slots'] == W['slots'] and w['in'] == W['in'], 'agree-work', g.where, 'the two forms of grouping do not do the same for a length')
    a, b = bounds(s, r), bounds(M.s, M.r)
    ctx.expect(a == b, 'agree-range', g.where, 'the two forms of grouping do not cover the same lengths')
    total(ctx, s, h, s.vals[g.id], g)
    rep = Roles(ctx, GGS, ['getTotalNumberOfGroups']).off['getTotalNumberOfGroups']
    a, b = settings(ctx, s, h, rep), settings(ctx, M.s, M.h, rep)
    for o in sorted(set(a) | set(b)):
        ctx.count('settings left behind')
        ctx.expect(a.get(o) == b.get(o), 'agree-%s' % o, g.where, 'the two forms of grouping leave different settings behind')


def threads(ctx, M):
    """the pool has at least one worker"""
    p = ctx.prog(plan(['^%s::groupAllLengths\\(' % GSET], ['^%s::' % GGS, '^%s::' % SET]))
    f = ctx.one(p, GSET + '::groupAllLengths')
    s = ctx.sym(f, p, nogate=True)
    calls = [i for i in f.instrs() if i.is_call and i.short == M.f.short]
    ctx.require(calls, 'grouping with a pool is not used')
    m = [a for a in M.s.argT if a.args[2] == 'i32']
    ctx.require(len(m) == 1, 'the number of threads is not given')
    k = M.s.argT.index(m[0])
    lows = []
    for i in calls:
        v = s.info[i.id]['args'][k]
        pr = Prover(s)
        lows.append(max([n for n in (1, 2) if pr.le(const(n), v, s.facts(i.blk))] or [None], key=lambda x: x or 0))
    ctx.expect(None not in lows, 'threads', calls[0].where, 'a pool without workers may be asked for')
    if None not in lows:
        size = M.s.info[M.pool.id]['args'][1]
        fact = le0(padd({(): min(lows)}, poly(m[0]), -1))
        ctx.expect(Prover(M.s).le(const(1), size, list(M.s.facts(M.pool.blk)) + [fact]), 'threads', M.pool.where, 'the pool may have no workers')
