"""The worker pool runs each accepted task exactly once and joins its threads.

Every function of the pool that is entered from outside (constructor, destructor, submitting,
the body of a worker, the body of a queued task) is flattened, the waiting with a condition included,
and explored by an abstract interpreter whose state is: which lock is held, what is known about the
stop flag and about the queue being empty since the lock was last taken, whether a task has been taken
from the queue and not yet run, and what has been signalled.  Reading the flag or asking
whether the queue is empty splits the state; taking or giving up the lock, or waiting, forgets.  All other
conditions are followed both ways unless they are decided by these.  In every reachable state:
flag and queue are touched only with the lock held (or while no worker exists);
a worker sleeps only if there is neither a task nor a request to stop, takes a task only from a queue known not to be
empty, removes it after taking it, runs it once after giving up the lock, and ends only when asked to stop with nothing queued;
submitting adds one task, only if not stopped, and signals afterwards; stopping sets the flag, wakes
all workers and joins each of them without holding the lock; a constructor that fails does the same.
Since all accesses are under one lock, these facts hold for every schedule.
"""
from gx import api
from gx.lib import *
from gx.models import size_of
from gx.sym import neg_
from gx.loops import ranges, once, loops_of

RULE = 'lock and typestate analysis over all states of every entry point of the pool'
POOL = 'ThreadPool'
LOCKS = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock')
QUEUE = ('std::queue::', 'std::deque::', 'std::list::')
FRONT, POP = ('front',), ('pop', 'pop_front')
PUSH = ('emplace', 'push', 'push_back', 'emplace_back')
START = ('std::vector::emplace_back', 'std::vector::push_back', 'std::thread::thread')
POS = 'some'


def run(ctx):
    p = ctx.prog(['index'] + plan([r'(^| )%s::' % POOL], inline=[' std::condition_variable::wait<']))
    own = {n: f for n, f in p.funcs.items() if f.short.startswith(POOL + '::') and f.file.endswith('ThreadPool.hpp')}
    ctx.require(own, 'the worker pool is no longer there')
    ctor = [f for f in own.values() if f.short == POOL + '::' + POOL]
    dtor = [f for f in own.values() if f.short == POOL + '::~' + POOL]
    ctx.require(ctor and dtor, 'the worker pool has no constructor or destructor')
    lay = Layout(ctx, p, ctor[0])
    inner = set().union(*[f.inlined for f in own.values()])
    outside = {c for n, x in p.index.items() if x.get('repo') and n not in p.funcs for c in x['calls']}
    entries = [f for n, f in own.items() if f.dem not in inner or n in outside]
    workers = subs = bodies = 0
    for f in entries:
        s = ctx.sym(f, p, nogate=True)
        calls = {i.short for i in f.instrs() if i.is_call}
        kind = 'constructor' if f.short == POOL + '::' + POOL else 'destructor' if f.short == POOL + '::~' + POOL else \
            'worker' if 'std::condition_variable::wait' in calls else \
            'submit' if any(lay.queue(s, i) in PUSH for i in f.instrs()) else 'other'
        ctx.count('entry points')
        workers += kind == 'worker'
        subs += kind == 'submit'
        Explore(ctx, f, s, lay, kind).run()
        if kind in ('constructor', 'destructor'):
            joins(ctx, f, s, lay, kind)
        if kind == 'constructor':
            starts(ctx, f, s)
        if kind == 'submit':
            delivered(ctx, f, s, lay)
        if any(c == 'std::packaged_task::operator()' for c in calls):
            bodies += 1
            n = [i for i in f.instrs() if i.is_call and i.short == 'std::packaged_task::operator()']
            ok = len(n) == 1 and not api.reaches_without(s, rets(f)[0], n) and not loops_of(f, n[0].blk)
            ctx.expect(ok, 'task-body', f.where, 'a queued task does not run its work exactly once')
    ctx.require(workers >= 1, 'no worker waits for tasks')
    ctx.require(subs >= 1, 'no task can be submitted')
    ctx.expect(bodies >= subs, 'task-body', ctor[0].where, 'what is queued does not run the submitted work')
    ctx.assume('running a queued packaged task stores its result or exception for the submitter and raises nothing (standard library)')


class Layout:
    """fields of the pool, by type"""

    def __init__(self, ctx, p, f):
        s = ctx.sym(f, p, nogate=True)
        this = s.argByName['this']
        self.off = {}
        for i in f.instrs():
            if i.is_call and 'args' in s.info.get(i.id, {}) and s.info[i.id]['args']:
                r, o = ptr_parts(s.info[i.id]['args'][0])
                if r is this and not set(o) - {()}:
                    k = {'std::mutex::mutex': 'mutex', 'std::condition_variable::condition_variable': 'cond', 'std::queue::queue': 'queue',
                         'std::deque::deque': 'queue', 'std::list::list': 'queue'}.get(i.short)
                    if i.short == 'std::vector::vector' and 'std::thread' in i.dem:
                        k = 'workers'
                    if k:
                        self.off.setdefault(k, o.get((), 0))
            elif i.op == 'store' and i.get('sty') in ('i8', 'i1') and s.info[i.id]['val'] is const(0):
                r, o = ptr_parts(s.info[i.id]['ptr'])
                if r is this:
                    self.off.setdefault('stop', o.get((), 0))
        ctx.require({'mutex', 'cond', 'queue', 'workers'} <= set(self.off), 'the pool no longer consists of threads, queue, lock and condition')
        ctx.require('stop' in self.off, 'the flag that stops the pool is not set up')

    def field(self, s, q):
        """which field of a pool the address is"""
        if q is None:
            return None
        r, o = ptr_parts(q)
        if root_of(q).op != 'arg' or set(o) - {()}:
            return None
        for k, v in self.off.items():
            if o.get((), 0) == v:
                return k
        return None

    def queue(self, s, i):
        """operation on the queue, or None"""
        if not i.is_call or not i.short or not i.short.startswith(QUEUE):
            return None
        a = s.info.get(i.id, {}).get('args')
        if not a or self.field(s, a[0]) != 'queue':
            return None
        return i.short.split('::')[-1]


class Explore:
    def __init__(self, ctx, f, s, lay, kind):
        self.ctx, self.f, self.s, self.lay, self.kind = ctx, f, s, lay, kind
        self.jl = {loops_of(f, i.blk)[-1] for i in f.instrs() if i.is_call and i.short == 'std::thread::join' and loops_of(f, i.blk)}

    def run(self):
        st = {'lock': (), 'stop': None, 'empty': None, 'last': None, 'task': None, 'src': None, 'pushed': 0, 'told': None,
              'stopped': False, 'started': False, 'joined': False, 'set': frozenset(), 'env': {}}
        seen = set()
        work = [(0, None, st)]
        n = 0
        while work:
            b, prev, st = work.pop()
            key = (b, prev, tuple(sorted(((k, tuple(sorted(v.items(), key=str)) if k == 'env' else v) for k, v in st.items()), key=str)))
            if key in seen:
                continue
            seen.add(key)
            n += 1
            self.ctx.require(n < 60000, 'too many states in %s' % self.f.short)
            st = dict(st)
            st['env'] = dict(st['env'])
            if b in self.jl:
                st['joined'] = True
            new = {}
            for i in self.f.blocks[b].ins:
                if i.op == 'phi':
                    v = [x for x, q in i.get('in') if q == prev]
                    new[i.id] = self.value(st, v[0]) if v else None
            for k, v in new.items():
                self.bind(st, k, v)
            self.step(b, 0, st, work)
        self.ctx.count('states', n)

    def value(self, st, o):
        if o.startswith('c:'):
            return int(o[2:])
        if o in ('null', 'zero'):
            return 0
        if o[0] == '%' and o[1] != 'a':
            return st['env'].get(int(o[1:]))
        return None

    def bind(self, st, k, v):
        if v is None:
            st['env'].pop(k, None)
        else:
            st['env'][k] = v

    def bad(self, key, i, msg):
        self.ctx.bad('%s:%s' % (self.kind, key), i.where, msg)

    def held(self, st):
        return bool(st['lock'])

    def need(self, st, i, what):
        quiet = self.kind == 'constructor' and not st['started'] or st['joined'] and self.kind in ('constructor', 'destructor')
        if self.held(st) or quiet:
            self.ctx.ok('%s: %s with the lock held @ %s' % (self.kind, what, i.where))
        else:
            self.bad('unlocked', i, 'the %s is used without holding the lock' % what)

    def forget(self, st):
        st['stop'] = st['empty'] = None

    def release(self, st, l, i):
        if l in st['lock']:
            st['lock'] = tuple(x for x in st['lock'] if x != l)
            if not st['lock']:
                st['last'] = (st['stop'], st['empty'])
                self.forget(st)

    def acquire(self, st, l, i):
        if st['lock']:
            self.bad('twice', i, 'the lock is taken while it is already held')
        st['lock'] = st['lock'] + (l,)
        self.forget(st)

    # one instruction after the other; a split continues in a copy
    def step(self, b, k, st, work):
        f, s, lay, ctx = self.f, self.s, self.lay, self.ctx
        ins = f.blocks[b].ins
        while k < len(ins):
            i = ins[k]
            k += 1
            if i.op == 'phi':
                continue
            if i.op == 'load':
                q = s.info.get(i.id, {}).get('ptr')
                if i.ty in ('i8', 'i1') and lay.field(s, q) == 'stop':
                    self.need(st, i, 'stop flag')
                    if st['stop'] is None:
                        for v in (0, 1):
                            t = self.copy(st)
                            t['stop'] = v if self.held(t) else None
                            t['env'][i.id] = v
                            self.step(b, k, t, work)
                        return
                    st['env'][i.id] = st['stop']
                else:
                    st['env'].pop(i.id, None)
                continue
            if i.op == 'store':
                q = s.info.get(i.id, {}).get('ptr')
                if i.get('sty') in ('i8', 'i1') and lay.field(s, q) == 'stop':
                    self.need(st, i, 'stop flag')
                    v = self.value(st, i.ops[0])
                    st['stop'] = v if self.held(st) else None
                    st['set'] = st['set'] | {'stop'}
                    if v == 0:
                        st['stopped'] = False
                        ctx.expect(self.kind == 'constructor', self.kind + ':restart', i.where, 'the request to stop is withdrawn')
                    else:
                        st['stopped'] = True
                        st['told'] = None
                        ctx.expect(self.kind in ('constructor', 'destructor'), self.kind + ':stop', i.where, 'the pool is stopped by something other than its end')
                continue
            if i.op in ('icmp', 'xor', 'and', 'or', 'zext', 'sext', 'trunc', 'select', 'freeze'):
                self.bind(st, i.id, self.compute(st, i))
                continue
            if i.is_call:
                r = self.call(i, b, k, st, work)
                if r == 'split':
                    return
                continue
        t = ins[-1]
        self.leave(b, t, st, work)

    def copy(self, st):
        t = dict(st)
        t['env'] = dict(st['env'])
        return t

    def compute(self, st, i):
        v = [self.value(st, o) for o in i.ops]
        if i.op in ('zext', 'trunc', 'freeze'):
            return v[0]
        if i.op == 'sext':
            return v[0]
        if i.op == 'select':
            return None if v[0] is None else v[1 if v[0] else 2]
        if i.op == 'and':
            return 0 if 0 in v else None if None in v else v[0] & v[1]
        if i.op == 'or':
            if i.get('oty') == 'i1' and 1 in v:
                return 1
            return None if None in v else v[0] | v[1]
        if i.op == 'xor':
            return None if None in v or POS in v else v[0] ^ v[1]
        p = i.get('pred')
        if POS in v and None not in v:
            a, c = v
            if a is POS and c == 0:
                return {'eq': 0, 'ne': 1, 'ugt': 1, 'sgt': 1, 'ult': 0, 'uge': 1, 'ule': 0, 'sle': 0, 'sge': 1, 'slt': 0}.get(p)
            if c is POS and a == 0:
                return {'eq': 0, 'ne': 1, 'ult': 1, 'slt': 1, 'ugt': 0, 'ule': 1, 'uge': 0, 'sge': 0, 'sle': 1, 'sgt': 0}.get(p)
            return None
        if None in v:
            return None
        a, c = v
        return int({'eq': a == c, 'ne': a != c, 'ugt': a > c, 'sgt': a > c, 'ult': a < c, 'slt': a < c, 'uge': a >= c, 'sge': a >= c,
                    'ule': a <= c, 'sle': a <= c}[p])

    def call(self, i, b, k, st, work):
        f, s, lay, ctx = self.f, self.s, self.lay, self.ctx
        a = s.info.get(i.id, {}).get('args') or []
        n = i.short or ''
        cls = n.rsplit('::', 1)[0]
        st['env'].pop(i.id, None)
        fld = lay.field(s, a[0]) if a else None
        # locks
        if cls in LOCKS:
            m = n.split('::')[-1]
            if m == cls.split('::')[-1]:
                if len(a) == 2 and lay.field(s, a[1]) == 'mutex' and not any(x in i.dem for x in ('try_to_lock_t', 'defer_lock_t', 'adopt_lock_t')):
                    self.acquire(st, a[0], i)
            elif m.startswith('~'):
                self.release(st, a[0], i)
            elif m == 'unlock':
                self.release(st, a[0], i)
            elif m == 'lock':
                self.acquire(st, a[0], i)
            return None
        if cls == 'std::mutex' and fld == 'mutex':
            m = n.split('::')[-1]
            if m == 'lock':
                self.acquire(st, a[0], i)
            elif m == 'unlock':
                self.release(st, a[0], i)
            elif m == 'mutex':
                st['set'] = st['set'] | {'mutex'}
            return None
        if cls == 'std::condition_variable' and fld == 'cond':
            m = n.split('::')[-1]
            if m == 'condition_variable':
                st['set'] = st['set'] | {'cond'}
            elif m == 'wait':
                ok = self.held(st) and a[1] in st['lock']
                ctx.expect(ok, self.kind + ':wait-lock', i.where, 'a worker waits without holding the lock')
                ctx.expect(not ok or st['stop'] == 0 and st['empty'] == 1, self.kind + ':sleep', i.where,
                           'a worker may go to sleep although there is a task or a request to stop')
                self.forget(st)
            elif m.startswith('wait'):
                self.forget(st)
            elif m in ('notify_one', 'notify_all'):
                st['told'] = 'all' if m == 'notify_all' else st['told'] or 'one'
            return None
        # queue
        op = lay.queue(s, i)
        if op is not None:
            m = op
            if m in ('queue', 'deque', 'list'):
                st['set'] = st['set'] | {'queue'}
                return None
            if m.startswith('~'):
                if self.kind in ('constructor', 'destructor'):
                    ctx.expect(st['joined'] or not st['started'], self.kind + ':gone', i.where, 'the queue is destroyed while workers may use it')
                return None
            self.need(st, i, 'task queue')
            if m in ('empty', 'size'):
                if st['empty'] is None:
                    for v in (0, 1):
                        t = self.copy(st)
                        t['empty'] = v if self.held(t) else None
                        t['env'][i.id] = v if m == 'empty' else (0 if v else POS)
                        self.step(b, k, t, work)
                    return 'split'
                v = st['empty']
                st['env'][i.id] = v if m == 'empty' else (0 if v else POS)
            elif m in FRONT:
                ctx.expect(st['empty'] == 0, self.kind + ':front', i.where, 'a task is taken from a queue that may be empty')
                st['src'] = ('front', i.id)
                st['env'][i.id] = ('front', i.id)
            elif m in POP:
                ctx.expect(st['empty'] == 0, self.kind + ':pop', i.where, 'a task is removed from a queue that may be empty')
                ok = st['task'] is not None and st['task'][1] == 'taken'
                ctx.expect(ok, self.kind + ':dropped', i.where, 'a task is removed from the queue without having been taken')
                if ok:
                    st['task'] = (st['task'][0], 'removed')
                st['empty'] = None
            elif m in PUSH:
                ctx.expect(st['stop'] == 0 and self.held(st), self.kind + ':refused', i.where, 'a task may be accepted after the pool was stopped')
                st['pushed'] += 1
                st['told'] = None
                st['empty'] = 0
            else:
                self.bad('queue', i, 'the queue is changed in an unknown way')
            return None
        if any(lay.field(s, x) == 'queue' for x in a):
            self.need(st, i, 'task queue')
            self.bad('queue', i, 'the queue is changed in an unknown way')
        # task objects
        if cls == 'std::function':
            m = n.split('::')[-1]
            if m in ('operator=', 'function', 'swap') and len(a) == 2:
                src = self.value(st, i.ops[1]) if i.ops[1][0] == '%' else None
                if isinstance(src, tuple) and src[0] == 'front':
                    ctx.expect(st['task'] is None, self.kind + ':lost', i.where, 'a task is overwritten before it was run')
                    st['task'] = (a[0], 'taken')
                elif st['task'] is not None and st['task'][0] is a[1]:
                    st['task'] = (a[0], st['task'][1])
            elif m == 'operator()':
                ctx.expect(not self.held(st), self.kind + ':run-lock', i.where, 'a task is run while the lock is held')
                ok = st['task'] is not None and st['task'][0] is a[0] and st['task'][1] == 'removed'
                ctx.expect(ok, self.kind + ':run', i.where, 'something other than the task just removed from the queue is run, or it is run twice')
                st['task'] = None
            elif m.startswith('~'):
                if st['task'] is not None and st['task'][0] is a[0]:
                    self.bad('lost', i, 'a task taken from the queue is not run')
                    st['task'] = None
            return None
        # threads
        if n in START and (fld == 'workers' or n == 'std::thread::thread'):
            ctx.expect({'stop', 'mutex', 'cond', 'queue'} <= st['set'] | ({'mutex'} if 'mutex' not in self.lay.off else set()), self.kind + ':early', i.where,
                       'a worker is started before the pool is set up')
            ctx.expect(not self.held(st), self.kind + ':start-lock', i.where, 'workers are started with the lock held')
            st['started'] = True
            return None
        if n == 'std::thread::join':
            ctx.expect(not self.held(st), self.kind + ':join-lock', i.where, 'a worker is joined with the lock held')
            ctx.expect(st['stopped'] and st['told'] == 'all', self.kind + ':join', i.where, 'a worker is joined before all workers were told to stop')
        if n == 'std::thread::detach':
            self.bad('detach', i, 'a worker is left running')
        return None

    def leave(self, b, t, st, work):
        ctx, f = self.ctx, self.f
        if t.op == 'ret':
            self.end(t, st)
            return
        if t.op == 'resume':
            ctx.expect(st['pushed'] == 0, self.kind + ':failed', t.where, 'a task is queued although submitting it fails')
            if self.kind == 'constructor' and st['started']:
                ctx.expect(st['stopped'] and st['joined'], 'constructor:failed', t.where, 'workers are left running when the pool cannot start all of them')
            return
        if t.op == 'unreachable':
            return
        succ = list(t.get('succ'))
        if t.op == 'invoke':
            work.append((succ[0], b, st))
            if self.kind == 'constructor' or self.kind == 'submit':
                u = self.copy(st)
                if self.lay.queue(self.s, t) in PUSH:
                    u['pushed'] -= 1
                work.append((succ[1], b, u))
            return
        if t.op == 'br' and len(succ) == 2:
            v = self.value(st, t.ops[0])
            if v is not None and v is not POS:
                succ = [succ[0 if v else 1]]
            else:
                c = self.s.asbool(self.s.val(t.ops[0]))
                this = self.s.argByName.get('this')
                none = mk('peq', NULL, this) if this is not None else None
                if c is none:
                    succ = succ[1:]
                elif none is not None and c is neg_(none):
                    succ = succ[:1]
                else:
                    succ = [x for x in succ if not api.dead_edge(self.s, b, x)]
        elif t.op == 'switch':
            v = self.value(st, t.ops[0])
            if v is not None and v is not POS:
                d = [x for c, x in t.get('cases') if c == v]
                succ = d or [t.get('default')]
        for x in dict.fromkeys(succ):
            work.append((x, b, st))

    def end(self, t, st):
        ctx, k = self.ctx, self.kind
        ctx.expect(not self.held(st), k + ':kept', t.where, 'the lock is not given up')
        if k == 'worker':
            ctx.expect(st['task'] is None, k + ':lost', t.where, 'a task taken from the queue is not run')
            ctx.expect(st['last'] == (1, 1), k + ':end', t.where, 'a worker may end without a request to stop or with tasks left')
        elif k == 'submit':
            ctx.expect(st['pushed'] == 1, k + ':once', t.where, 'submitting a task does not queue it exactly once')
            ctx.expect(st['told'] is not None, k + ':signal', t.where, 'no worker is told about a new task')
        elif k == 'destructor':
            ctx.expect(st['stopped'] and st['told'] == 'all' and st['joined'], k + ':end', t.where, 'the pool ends without stopping, waking and joining its workers')
        elif k == 'constructor':
            ctx.expect(not st['stopped'], k + ':end', t.where, 'the pool is stopped from the start')
        if k not in ('destructor',) and st['stopped']:
            ctx.expect(st['joined'], k + ':stopped', t.where, 'the pool is stopped but its workers are not joined')


def joins(ctx, f, s, lay, kind):
    """each worker is joined exactly once"""
    js = [i for i in f.instrs() if i.is_call and i.short == 'std::thread::join' and not ptr_is_null(s.info[i.id]['args'][0])]
    ctx.require(js or kind == 'constructor', 'no thread is joined')
    for i in js:
        ls = loops_of(f, i.blk)
        a = s.info[i.id]['args'][0]
        ok = len(ls) == 1 and a.op == 'elem' and lay.field(s, a.args[0]) == 'workers'
        if ctx.expect(ok, kind + ':joins', i.where, 'not each worker is joined'):
            h = ls[0]
            good = False
            for r in ranges(s, h):
                d = {m: c for m, c in padd(poly(a.args[1]), {(r.atom,): 1}, -1).items() if c}
                lo, hi = mkpoly(padd(poly(r.lo), d)), mkpoly(padd(poly(r.hi), d))
                size = size_of(s, s.peek(s.instate[h], a.args[0], 'obj'))
                good = good or not set(d) - {()} and not r.early and abs(r.step) == 1 and lo is const(0) and hi is size

            def not_joinable(b, n):
                t = f.blocks[b].term
                if t.op != 'br' or len(t.get('succ')) != 2:
                    return False
                j = f.by_id.get(int(t.ops[0][1:])) if t.ops[0][0] == '%' and t.ops[0][1] != 'a' else None
                return j is not None and j.is_call and j.short == 'std::thread::joinable' and t.get('succ')[1] == n
            ctx.expect(good and once(s, h, [i], not_joinable), kind + ':joins', i.where, 'not each worker is joined exactly once')


def ptr_is_null(t):
    return any(x is NULL for x in subterms(t))


def starts(ctx, f, s):
    """as many workers as asked for"""
    st = [i for i in f.instrs() if i.is_call and i.short in START[:2] and 'std::thread' in i.dem]
    ctx.require(st, 'no worker is started')
    n = [a for a in s.argT if a is not s.argByName['this']]
    for i in st:
        ls = loops_of(f, i.blk)
        ok = len(ls) == 1 and any(add(r.hi, r.lo, -1) in n and abs(r.step) == 1 and not r.early for r in ranges(s, ls[0])) and once(s, ls[0], st)
        ctx.expect(ok, 'starts', i.where, 'not as many workers are started as asked for')


def delivered(ctx, f, s, lay):
    """the future handed out belongs to the task that is queued"""
    fut = [i for i in f.instrs() if i.is_call and i.short == 'std::packaged_task::get_future']
    push = [i for i in f.instrs() if lay.queue(s, i) in PUSH]
    ok = len(fut) == 1 and len(push) == 1
    if ctx.expect(ok, 'future', f.where, 'the result of a queued task is not handed out'):
        t = s.info[fut[0].id]['args'][1]
        src = t.args[0] if t.op == 'sp' else t
        at = [(push[0], s.info[push[0].id]['args'][1])]
        at += [(i, s.info[i.id]['args'][1]) for i in f.instrs() if i.is_call and i.short == 'std::function::function'
               and s.info[i.id]['args'][0] is at[0][1]]
        q = [s.peek(api.state_before(s, i), x, 'obj') for i, x in at]
        ctx.expect(any(x is src or src in set(subterms(x)) for x in q), 'future', fut[0].where, 'the result handed out is not that of the queued task')
        ctx.expect(s.info[fut[0].id]['args'][0] is s.argT[0], 'future', fut[0].where, 'the result of the task is not handed out')
    b = [i for i in f.instrs() if i.is_call and i.short == 'std::bind']
    mk_ = [i for i in f.instrs() if i.is_call and i.short.startswith('std::make_shared')]
    args = set(s.argT)
    ctx.expect(len(mk_) == 1 and (any(x in args for i in b for x in s.info[i.id]['args'][1:])
                                  or any(x in args for x in s.info[mk_[0].id]['args'][1:])), 'work', f.where, 'what is queued is not the submitted work')
