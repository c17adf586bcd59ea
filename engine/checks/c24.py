"""No call uses an undefined value, divides by zero or ends the process.

Values that were never set: before the functions are flattened, a marker is
stored into every local variable that has no initialiser of its own, and the
initial content of local objects and of fresh heap memory is a recognisable
term.  Value numbering then follows the markers through assignments, merges and
callees (out-parameters included).  No marker may reach a branch, an index, a
call, a returned value or memory outside the function, unless the conditions
that hold there exclude the ways on which the variable was not set.  A number
extracted from a stream counts as set only where the stream was tested after
the extraction.  Every constructor of every repository class sets every number,
flag and pointer of the object that the class reads or that the standard
library constructs; where one leaves other members to its user, the object must
have them all before it is handed on.  Arrays created with `new`
are filled on every way out.  Conversions from floating point to integers only
see values inside the range of the integer.

Division: the divisor of every integer division or remainder in code that the
operations reach is proved non-zero from the conditions that hold there; when a
function cannot prove it alone it is judged in all its callers, and fields used
as divisors must be given only positive values anywhere in the program.

Ending the process: nothing an operation reaches calls a function that ends the
process, no function declared not to throw reaches a `throw`, and no function
with a result falls off its end.
"""
import math
import re

from gx import api, loops, names
from gx.core import AnalysisBroken
from gx.lib import *
from gx.paths import split, contradiction, rewrite
from gx.sym import SIZES, neg_

RULE = 'marker propagation for unset variables; member coverage of constructors; non-zero divisors; call graph without process exits'
DIVS = ('sdiv', 'udiv', 'srem', 'urem')
ENDS = {'exit', 'abort', '_exit', '_Exit', 'quick_exit', 'raise', 'kill', '__assert_fail', '__assert', '_ZSt9terminatev', 'longjmp', 'siglongjmp',
        'pthread_exit', 'thrd_exit', 'err', 'errx', 'verr', 'verrx', 'perror_exit', '__cxa_pure_virtual', 'llvm.trap', '_ZSt10unexpectedv'}


def run(ctx):
    plan_ = ['index', 'uninit', 'rootrepo'] + INL
    p = ctx.prog(plan_)
    reach = operations(ctx, p)
    for f in p.funcs.values():
        if f.name in reach:
            unset(ctx, p, f)
    py = ctx.prog(plan_, 'py')
    own = [f for f in py.funcs.values() if f.file not in {g.file for g in p.funcs.values()}]
    ctx.require(len(own) > 10, 'functions of the Python module not found')
    for f in own:
        unset(ctx, py, f)
    ctx.require(ctx.counts.get('variables followed', 0) > 100, 'markers for unset variables not found')
    constructors(ctx, p, reach)
    arrays(ctx, p, reach)
    D = Divisions(ctx, p, reach)
    D.run()
    ends(ctx, p, reach)
    ends(ctx, py, {f.name for f in own}, 'py')


# ------------------------------------------------------------------- scope
def operations(ctx, p):
    """functions an operation of the library, the command-line tool or the Python module can reach"""
    start = [n for n, d in p.index.items() if d.get('repo') and not d.get('decl') and
             (d['dem'] == 'main' or re.search(r'(^| )genex::', d['dem'].split('(')[0]) or p_cli(d))]
    seen, todo = set(), list(start)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        d = p.index.get(n)
        if d:
            todo += list(d.get('calls', [])) + list(d.get('refs', []))
    ctx.require(len([n for n in seen if p.index.get(n, {}).get('repo')]) > 150, 'operations not found')
    ctx.count('functions reachable from operations', len([n for n in seen if p.index.get(n, {}).get('repo')]))
    return seen


def p_cli(d):
    return '/cli/' in (d.get('file') or '')


# ------------------------------------------------------- values never set
def initial(s, t):
    """the content local or fresh memory starts with"""
    if t.op == 'uninit':
        return True
    if t.op != 'ld' or any(t.args[2]):
        return False
    r, o = ptr_parts(t.args[0])
    return r.op in ('alloca', 'new') and not set(o) - {()} and t.args[1] != 'obj'


def children(t):
    todo = list(t.args)
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            todo.extend(x)


def plain(s, fs):
    """conditions on a flag that was computed from a condition become that condition"""
    out = []
    for f in fs:
        g, pos = (f.args[0], False) if f.op == 'not' else (f, True)
        q = list(poly(g.args[0]).items()) if g.op == 'eq0' else []
        if len(q) == 1 and len(q[0][0]) == 1 and q[0][0][0].op == 'sel':
            c, a, b = q[0][0][0].args
            if a.op == 'int' and b.op == 'int' and (a.args[0] == 0) != (b.args[0] == 0):
                s.cond_facts(c, (a.args[0] == 0) == pos, out)
                continue
        out.append(f)
    return out


class Taint:
    def __init__(self, s):
        self.s = s
        self.memo = {}

    def of(self, t):
        """may the value be one that was never set (ignoring conditions)"""
        k = self.memo.get(t)
        if k is not None:
            return k
        self.memo[t] = False
        r = initial(self.s, t)
        if not r and t.op == 'phi':
            r = any(self.of(v) for v in self.s.minc.get(t, {}).values())
        elif not r and t.op not in ('ld', 'upd', 'ret', 'new', 'alloca', 'arg'):
            r = any(self.of(x) for x in children(t))
        self.memo[t] = r
        return r

    def at(self, t, facts, depth=0):
        """a way on which the value was never set, consistent with the conditions"""
        if not self.of(t):
            return None
        if depth > 6:
            return t
        try:
            cs = split(self.s, [t], plain(self.s, facts))
        except OverflowError:
            return t
        for (v,), fs in cs:
            if not self.of(v):
                continue
            for x in subterms(v):
                if initial(self.s, x):
                    return x
            for x in subterms(v):
                if x.op == 'phi' and self.of(x) and x in self.s.minc and 'entry' in self.s.minc[x]:
                    # first pass through the loop
                    m = {y: inc['entry'] for y, inc in self.s.minc.items() if y.op == 'phi' and 'entry' in inc and y.args[:2] == x.args[:2]}
                    memo = {}
                    nf = [rewrite(f, m, memo) for f in fs]
                    if contradiction(nf):
                        continue
                    e = self.at(rewrite(v, m, memo), nf, depth + 1)
                    if e is not None:
                        return e
        return None


class Extracted:
    """numbers read from a stream into variables that had no value before"""

    def __init__(self, s, tt):
        self.s = s
        self.calls = {}
        f = s.fn
        for i in f.instrs():
            if i.is_call and i.short and re.search(r'(istream|basic_istream)::operator>>$', i.short) and len(i.ops) > 1:
                q = s.info[i.id]['args'][1]
                if root_of(q).op == 'alloca':
                    ty = f.by_id[root_of(q).args[0]].get('aty') if root_of(q) is q else None
                    if ty in SIZES and tt.of(api.content_before(s, i, q, ty)):
                        self.calls[i.id] = i
        self.tests = [i for i in f.instrs() if i.is_call and i.short and i.short.startswith('std::basic_ios::') and i.short.rsplit('::', 1)[1] in
                      ('operator!', 'operator bool', 'fail', 'good')] if self.calls else []

    def untested(self, t, i):
        if not self.calls:
            return None
        for x in subterms(t):
            if x.op == 'upd' and x.args[0] == self.s.fn.name and x.args[1] in self.calls and x.args[2] == 1 and i.id != x.args[1]:
                e = self.calls[x.args[1]]
                fs = set(self.s.facts(i.blk))
                for c in self.tests:
                    v = self.s.asbool(self.s.val('%%%d' % c.id))
                    good = neg_(v) if c.short.endswith(('operator!', 'fail')) else v
                    if good in fs and self.s.fn.i_dominates(e, c):
                        break
                else:
                    return x
        return None


def unset(ctx, p, f):
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    ctx.count('functions')
    tt = Taint(s)
    ex = Extracted(s, tt)
    ctx.count('extractions', len(ex.calls))
    for i in f.instrs():
        if i.op == 'phi' or i.is_call and (i.dem or '').startswith('gx.uninit'):
            ctx.counts['variables followed'] = ctx.counts.get('variables followed', 0) + (i.op != 'phi')
            continue
        use = []
        if i.op in ('br', 'switch', 'ret'):
            use = [s.val(o) for o in i.ops[:1]]
        elif i.op == 'load':
            use = [s.info[i.id]['ptr']] if 'ptr' in s.info.get(i.id, {}) else []
        elif i.op == 'store':
            q = s.info.get(i.id, {}).get('ptr')
            if q is None:
                continue
            use = [q]
            if root_of(q).op != 'alloca':
                use.append(s.info[i.id]['val'])
        elif i.is_call:
            a = s.info.get(i.id, {}).get('args') or []
            use = list(a) + referred(s, i, a)
        elif i.op in DIVS:
            use = [s.val(o) for o in i.ops]
        if not use:
            continue
        bad = None
        for t in use:
            if t is UNDEF:
                bad = t
            elif tt.of(t):
                bad = tt.at(t, s.facts(i.blk))
            else:
                bad = ex.untested(t, i)
            if bad is not None:
                break
        ctx.oblig += 1
        if bad is None:
            ctx.disch += 1
        else:
            ctx.bad('unset:%s:%s:%s' % (owner(i), i.op if not i.is_call else i.short, label(bad)), i.where,
                    'a value that was never set (%s) is used here' % label(bad))


READERS = ('std::make_pair', 'std::make_tuple', 'std::pair::pair', 'std::tuple::tuple', 'std::vector::emplace_back', 'std::vector::push_back')


def referred(s, i, args):
    """values of local variables the call reads through a reference"""
    out = []
    if i.dem is None or i.get('repo'):
        return out
    for n, x in enumerate(args):
        if x.op != 'alloca':
            continue
        ty = s.fn.by_id[x.args[0]].get('aty')
        if ty not in SIZES:
            continue
        c = s.info[i.id].get('call')
        k = n - (1 if c is not None and c.this is not None else 0) - (1 if i.get('sret') else 0)
        ps = names.parse(i.dem)[1]
        q = ps[k] if 0 <= k < len(ps) else ''
        if i.short in READERS or q.endswith(' const&') or q.endswith('&&'):
            out.append(api.content_before(s, i, x, ty))
    return out


def owner(i):
    m = re.search(r'\(([^()]*)\)$', i.where)
    return m.group(1) if m else i.fn.short


def label(t):
    if t.op == 'uninit':
        return t.args[2] or "local variable"
    if t.op == 'upd':
        return 'number extracted without a test of the stream'
    if t.op == 'ld':
        return t.note or 'memory of a local object'
    return 'undefined'


def scalars(p, n, base=0, pre=''):
    """[(offset, type, name)] of the numbers, flags and pointers of a class, those of nested repository classes included"""
    for m in p.types[n]['members']:
        if m['kind'] == 'ptr':
            yield base + m['off'], 'ptr', pre + m['name']
        elif m['kind'] == 'float':
            yield base + m['off'], {8: 'double', 4: 'float'}.get(m['size'], 'x86_fp80'), pre + m['name']
        elif m['kind'] == 'int':
            yield base + m['off'], 'i%d' % (8 * m['size']), pre + m['name']
        elif m['kind'] == 'class' and m['ty'] in p.types:
            for x in scalars(p, m['ty'], base + m['off'], pre + m['name'] + '.'):
                yield x


def holds_initial(s, st, base, off, ty):
    q = ptr_add(base, {(): off} if off else {})
    v = s.peek(st, q, ty)
    if v.op == 'phi' and v in s.minc:
        return any(w.op == 'ld' and w.args[0] is q and not any(w.args[2]) for w in s.minc[v].values())
    return v.op == 'uninit' or v.op == 'ld' and v.args[0] is q and not any(v.args[2])


def constructors(ctx, p, reach):
    left = {}
    foreign = {c for d in p.index.values() if not d.get('repo') for c in list(d.get('calls', [])) + list(d.get('refs', []))}
    for n in sorted(p.types):
        fs = [f for f in p.funcs.values() if f.short == n + '::' + n.split('::')[-1] and f.name in reach]
        ms = list(scalars(p, n))
        if not fs or not ms:
            continue
        ctx.count('classes')
        reads = own_reads(ctx, p, n)
        for f in fs:
            s = ctx.sym(f, p, nogate=True, stable=stable_args)
            ctx.count('constructors')
            whole = copied(s, s.argT[0])
            for r in rets(f):
                st = api.state_before(s, r)
                for off, ty, name in ms:
                    if off in whole or not holds_initial(s, st, s.argT[0], off, ty):
                        ctx.ok('%s sets %s' % (f.short, name))
                    elif off in reads or f.name in foreign:
                        ctx.bad('member:%s:%s' % (n, name), f.where,
                                'this constructor leaves %s unset%s' % (name, ', which %s reads' % reads[off].short if off in reads else ''))
                    else:
                        left.setdefault(n, {}).setdefault(f.dem, {})[(off, ty)] = (name, f)
    ctx.require(ctx.counts.get('constructors', 0) >= 8, 'constructors not found')
    for n, cs in sorted(left.items()):
        for dem, ms in sorted(cs.items()):
            for f in p.funcs.values():
                if f.name in reach and dem in f.inlined:
                    ctx.count('objects completed after construction', instances(ctx, p, f, n, ms))


def copied(s, base):
    """offsets in the object that block copies cover"""
    out = set()
    for i in s.fn.instrs():
        if i.is_call and re.match(r'llvm\.mem(cpy|move|set)', i.dem or '') and all(s.fn.i_dominates(i, r) for r in rets(s.fn)):
            a = s.info[i.id]['args']
            r, o = ptr_parts(a[0])
            if r is base and not set(o) - {()} and a[2].op == 'int':
                out |= set(range(o.get((), 0), o.get((), 0) + a[2].args[0]))
    return out


def own_reads(ctx, p, n):
    """{offset: function} of the members that functions of the class, or of its friends, read"""
    out = {}
    at = {(n + '::' + m['name']): m['off'] for m in p.types[n]['members']}
    last = n.split('::')[-1]
    for f in p.funcs.values():
        if not f.short.startswith(n + '::') or f.short.rsplit('::', 1)[1] in (last, 'operator='):
            continue
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        for i in f.instrs():
            if i.op == 'load' and owner(i) == f.short:
                q = s.info.get(i.id, {}).get('ptr')
                if q is not None and q.note in at:
                    out.setdefault(at[q.note], f)
    return out


def instances(ctx, p, f, n, ms):
    """objects of class n made in f: complete before they are handed on"""
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    k = 0
    objs = set()
    for i in f.instrs():
        if i.is_call and i.short == 'operator new' and i.ops[0] == 'c:%d' % p.types[n]['size']:
            objs.add((s.vals[i.id], i))
        elif i.op == 'alloca' and (i.get('aty') or '').strip('%').split('.', 1)[-1].strip('"') == n:
            objs.add((s.vals[i.id], i))
    for o, made in sorted(objs, key=lambda x: x[1].id):
        k += 1
        stored = set()
        for i in f.instrs():
            if i.op == 'store':
                r, q = ptr_parts(s.info[i.id]['ptr'])
                if r is o:
                    stored |= {q.get((), 0)} if not set(q) - {()} else {off for off, ty in ms}
            elif i.is_call and o in (s.info[i.id].get('args') or []) and re.search(r'operator>>|operator=|^llvm\.mem', i.dem or ''):
                stored |= {off for off, ty in ms}
        for i in f.instrs():
            out = False
            if i.op == 'store' and s.info.get(i.id, {}).get('val') is o:
                out = root_of(s.info[i.id]['ptr']).op != 'alloca'
            elif i.op == 'ret' and i.ops:
                out = s.val(i.ops[0]) is o
            elif i.is_call and i.id != made.id:
                out = o in (s.info[i.id].get('args') or []) and not re.search(r'delete|~|^llvm\.', i.dem or '') and \
                    (i.get('repo') or o.op == 'alloca')
            if out:
                st = api.state_before(s, i)
                for (off, ty), (name, c) in sorted(ms.items()):
                    ctx.expect(off in stored and not holds_initial(s, st, o, off, ty), 'member:%s:%s:%s' % (n, name, f.short), i.where,
                               'a %s is handed on whose %s was never set: its constructor leaves it out' % (n, name))
    return k


# -------------------------------------------------------------------- arrays
def arrays(ctx, p, reach):
    """memory from new[] is filled on every way from there to a return"""
    for f in p.funcs.values():
        if f.name not in reach:
            continue
        news = [i for i in f.instrs() if i.is_call and i.short == 'operator new[]' and owner(i) == f.short]
        if not news:
            continue
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        for i in news:
            ctx.count('arrays')
            a, n = s.vals[i.id], s.info[i.id]['args'][0]
            where, key = i.where, 'array:%s' % f.short
            if n.op == 'int':
                done, sizes = set(), {8}
                for j in f.instrs():
                    if j.op == 'store' and all(f.i_dominates(j, r) for r in rets(f) if f.i_dominates(i, r)):
                        r_, o = ptr_parts(s.info[j.id]['ptr'])
                        if r_ is a and not set(o) - {()}:
                            sizes.add(SIZES.get(j.get('sty'), 8))
                            done |= set(range(o.get((), 0), o.get((), 0) + SIZES.get(j.get('sty'), 8)))
                if set(range(n.args[0])) <= done:
                    ctx.ok(key)
                    continue
            fills = filled(s, i, a, n)
            seen, todo, missed = set(), [(i.blk, i.pos + 1)], False
            while todo and not missed:
                b, at = todo.pop()
                ins = f.blocks[b].ins
                if any(j.id in fills for j in ins[at:]) or (at == 0 and b in fills['loops']):
                    continue
                if ins[-1].op == 'ret':
                    missed = True
                for c in f.blocks[b].succs:
                    if ins[-1].op == 'invoke' and c == ins[-1].get('succ')[-1] or c in seen or api.dead_edge(s, b, c):
                        continue
                    seen.add(c)
                    todo.append((c, 0))
            ctx.expect(not missed, key, where, 'the array made here is not filled on every way')
    ctx.require(ctx.counts.get('arrays', 0) >= 4, 'arrays not found')


def filled(s, made, a, n):
    """instructions that fill the whole array, headers of loops that do"""
    f = s.fn
    out = {'loops': set()}
    P = Prover(s)
    for j in f.instrs():
        if j.is_call and j.id != made.id:
            args = s.info.get(j.id, {}).get('args') or []
            if j.dem and re.match(r'llvm\.mem(set|cpy|move)|mem(set|cpy|move)$', j.dem):
                fs = s.facts(j.blk)
                if args and args[0] is a and P.le(n, args[2], fs):
                    out[j.id] = 1
            elif any(x is a for x in args) and 'delete' not in (j.short or '') and '~' not in (j.short or ''):
                out[j.id] = 1
        elif j.op == 'store':
            r, o = ptr_parts(s.info[j.id]['ptr'])
            if r is a and set(o) - {()}:
                size = SIZES.get(j.get('sty'), 8)
                for x in f.loop_of.get(j.blk) or []:
                    if made.blk in f.loops[x]:
                        continue
                    rs = [g for g in loops.ranges(s, x) if o == {(g.atom,): size}]
                    # a loop that writes element by element has to cover the array; of others only the existence is required
                    if not rs or any(P.le(n, mul(g.hi, const(size)), s.facts(x)) and P.le(g.lo, const(0), s.facts(x)) for g in rs):
                        out['loops'].add(x)
    return out


# ----------------------------------------------------------------- divisions
class Ranges:
    """bounds of floating point values, from constants, conversions and guarded globals"""

    def __init__(self, ctx, p, reach):
        self.ctx, self.p, self.reach = ctx, p, reach
        self.glob = {}
        writes = {}
        for f in p.funcs.values():
            if f.name not in reach:
                continue
            for i in f.instrs():
                if i.op == 'store' and i.ops[1].startswith('@') and i.get('sty') in ('double', 'float'):
                    writes.setdefault(i.ops[1][1:], []).append((f, i))
        for g, ws in writes.items():
            init = p.globals.get(g, {}).get('init')
            lo, hi = self.number(init), self.number(init)
            for f, i in ws:
                if lo is None:
                    break
                if owner(i) != f.short:
                    continue
                s = self.ctx.sym(f, p, nogate=True, stable=stable_args)
                a, b = self.of(s, s.info[i.id]['val'], s.facts(i.blk))
                lo, hi = (None, None) if a is None or b is None else (min(lo, a), max(hi, b))
            if lo is not None:
                self.glob[g] = (lo, hi)

    @staticmethod
    def number(x):
        try:
            if isinstance(x, dict):
                x = x.get('f', x.get('float', x.get('c')))
            return 0.0 if x == 'zero' else float(str(x).split(':')[-1])
        except (TypeError, ValueError):
            return None

    def of(self, s, t, facts, P=None):
        lo = hi = None
        if t.op == 'fconst':
            v = self.number(t.args[0])
            lo = hi = v
        elif t.op in ('sitofp', 'uitofp'):
            lo, hi = -2.0**31, 2.0**31 - 1
            if (P or Prover(s)).ge0(t.args[0], facts):
                lo = 0.0
        elif t.op == 'ld' and t.args[0].op == 'global' and t.args[0].args[0] in self.glob:
            lo, hi = self.glob[t.args[0].args[0]]
        elif t.op == 'fmul':
            (a, b), (c, d) = self.of(s, t.args[0], facts, P), self.of(s, t.args[1], facts, P)
            if None not in (a, b, c, d):
                q = [a * c, a * d, b * c, b * d]
                lo, hi = min(q), max(q)
        elif t.op in ('fadd', 'fsub'):
            (a, b), (c, d) = self.of(s, t.args[0], facts, P), self.of(s, t.args[1], facts, P)
            if None not in (a, b, c, d):
                lo, hi = (a + c, b + d) if t.op == 'fadd' else (a - d, b - c)
        elif t.op in ('fmin', 'fmax'):
            r = [self.of(s, x, facts, P) for x in t.args]
            if None not in r[0] + r[1]:
                f = min if t.op == 'fmin' else max
                lo, hi = f(r[0][0], r[1][0]), f(r[0][1], r[1][1])
        elif t.op in ('fpext', 'fptrunc', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint'):
            a, b = self.of(s, t.args[0], facts, P)
            if a is not None and b is not None:
                lo, hi = math.floor(a), math.ceil(b)
        for f in facts:
            pos = True
            if f.op == 'not':
                f, pos = f.args[0], False
            if f.op != 'fcmp' or t not in f.args[1:]:
                continue
            k = f.args[0]
            if not pos:
                k = {'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt', 'olt': 'uge', 'ole': 'ugt', 'ogt': 'ule', 'oge': 'ult'}.get(k, '')
            if k not in ('olt', 'ole', 'ogt', 'oge', 'oeq'):
                continue
            o = f.args[2] if f.args[1] is t else f.args[1]
            if o is t:
                continue
            c, d = self.of(s, o, ()) if o.op in ('fconst', 'sitofp') else (None, None)
            less = k in ('olt', 'ole') and f.args[1] is t or k in ('ogt', 'oge') and f.args[2] is t or k == 'oeq'
            more = k in ('ogt', 'oge') and f.args[1] is t or k in ('olt', 'ole') and f.args[2] is t or k == 'oeq'
            if less and d is not None:
                hi = d if hi is None else min(hi, d)
            if more and c is not None:
                lo = c if lo is None else max(lo, c)
        return lo, hi


class Divisions:
    def __init__(self, ctx, p, reach):
        self.ctx, self.p, self.reach = ctx, p, reach
        self.R = Ranges(ctx, p, reach)
        self.callers, self.referred = {}, set()
        for n, d in p.index.items():
            if d.get('repo') and n in reach:
                for c in d.get('calls', []):
                    if c != n:
                        self.callers.setdefault(c, set()).add(n)
                for c in d.get('refs', []):
                    if c not in d.get('calls', []):
                        self.referred.add(c)
        self.positive = {}
        self.done = {}

    def run(self):
        ctx, p = self.ctx, self.p
        n = 0
        for f in sorted(p.funcs.values(), key=lambda f: f.name):
            if f.name not in self.reach:
                continue
            for i in f.instrs():
                if i.op in DIVS and owner(i) == f.short:
                    n += 1
                    ctx.count('integer divisions')
                    bad = self.judge(f.name, i.loc, i.op)
                    ctx.expect(bad is None, 'division:%s:%s' % (f.short, bad and bad.short), i.where,
                               'the divisor is not certain to differ from zero%s' % (' when reached through %s' % bad.short if bad else ''))
                elif i.op in ('fptosi', 'fptoui') and owner(i) == f.short:
                    ctx.count('conversions to integers')
                    s = ctx.sym(f, p, nogate=True, stable=stable_args)
                    lo, hi = self.R.of(s, s.val(i.ops[0]), s.facts(i.blk))
                    w = int(re.sub(r'\D', '', i.ty) or 32)
                    a, b = (-2.0**(w - 1) - 1, 2.0**(w - 1)) if i.op == 'fptosi' else (-1.0, 2.0**w)
                    ctx.expect(lo is not None and hi is not None and a < lo and hi < b, 'conversion:%s' % f.short, i.where,
                               'a floating point value that may lie outside the range of the integer (or be no number) is converted')
        ctx.require(n >= 8, 'integer divisions not found')

    def judge(self, name, loc, op, stack=()):
        """None when the division at loc cannot divide by zero in any use of the function, else the entry where it might"""
        f = self.p.funcs.get(name)
        if f is None:
            return None
        k = (name, loc, op)
        if k not in self.done:
            self.done[k] = self.local(f, loc, op)
        if self.done[k]:
            return None
        up = [c for c in sorted(self.callers.get(name, ())) if c not in stack]
        if not up or name in self.referred:
            return f
        for c in up:
            b = self.judge(c, loc, op, stack + (name,))
            if b is not None:
                return b
        return None

    def local(self, f, loc, op):
        s = self.ctx.sym(f, self.p, nogate=True, stable=stable_args)
        for i in f.instrs():
            if i.op == op and i.loc == loc:
                d = s.val(i.ops[1])
                fs = s.facts(i.blk)
                if d.op == 'int':
                    if d.args[0] == 0:
                        return False
                    continue
                P = Prover(s, lambda a: self.axioms(s, a, fs))
                if not self.nonzero(P, d, fs):
                    try:
                        cs = split(s, [d], fs)
                    except OverflowError:
                        return False
                    if not all(self.nonzero(P, v, w) or P.absurd(w) for (v,), w in cs):
                        return False
        return True

    @staticmethod
    def nonzero(P, d, fs):
        if P.le(const(1), d, fs) or P.le(d, const(-1), fs) or neg_(eq0(poly(d))) in fs:
            return True
        q = poly(d)
        return len(q) == 1 and len(list(q)[0]) > 1 and all(P.le(const(1), x, fs) for x in list(q)[0])

    def axioms(self, s, a, fs):
        if a.op == 'ld' and a.note and a.args[1] in ('i32', 'i64') and self.field(a.note, a.args[1]):
            return [{(a,): -1, (): 1}]
        if a.op in ('fptosi', 'fptoui'):
            lo, hi = self.R.of(s, a.args[0], fs)
            if lo is not None and lo >= 0:
                return [{(a,): -1}]
        return []

    def field(self, note, ty):
        """every value given to the field anywhere is at least one"""
        if note not in self.positive:
            self.positive[note] = True        # assumed while its own stores are judged
            n = 0
            ok = True
            for f in self.p.funcs.values():
                for i in f.instrs():
                    if i.op != 'store' or i.get('sty') != ty or owner(i) != f.short:
                        continue
                    s = self.ctx.sym(f, self.p, nogate=True, stable=stable_args)
                    q = s.info.get(i.id, {}).get('ptr')
                    if q is None or q.note != note:
                        continue
                    n += 1
                    fs = s.facts(i.blk)
                    P = Prover(s, lambda a: self.axioms(s, a, fs))
                    v = s.info[i.id]['val']
                    if not P.le(const(1), v, fs):
                        ok = False
            self.positive[note] = ok and n > 0
            if not self.positive[note]:
                self.done = {}
        return self.positive[note]


# ------------------------------------------------------------------ endings
def ends(ctx, p, reach, part='lib'):
    n = 0
    for x in sorted(reach):
        d = p.index.get(x)
        if not d or not d.get('repo'):
            continue
        n += 1
        for c in d.get('calls', []):
            e = p.index.get(c, {})
            if c in ENDS or re.match(r'std::(terminate|abort|exit|quick_exit|_Exit|unexpected)\(', e.get('dem') or ''):
                ctx.bad('ends:%s:%s' % (d['dem'].split('(')[0], c), '%s:%s (%s)' % (d.get('file'), d.get('line'), d['dem'].split('(')[0]),
                        'an operation can reach this call of %s, which ends the process' % (e.get('dem') or c))
            else:
                ctx.oblig += 1
                ctx.disch += 1
    ctx.count('functions without a call that ends the process', n)
    own = ctx.prog(['index', 'rootrepo', 'keep\t.'], part)
    raises = raiser(own)
    for f in own.funcs.values():
        if f.name in reach:
            doomed(ctx, own, f, raises)
            falls_off(ctx, f)


def doomed(ctx, p, f, raises):
    """calls during which an exception would end the process"""
    fatal = {b for b in f.rpo if any(i.is_call and i.get('callee', i.dem) in ('__clang_call_terminate', '_ZSt9terminatev') or
                                     i.is_call and i.dem in ('__clang_call_terminate', 'std::terminate()') for i in f.blocks[b].ins)}
    if not fatal:
        return
    for i in f.instrs():
        if i.op != 'invoke' or not leads(f, i.get('succ')[-1], fatal):
            continue
        ctx.count('calls that must not throw')
        nm = i.get('callee')
        can = nm is not None and raises(nm)
        ctx.expect(not can, 'noexcept:%s:%s' % (f.short, i.short or 'indirect'), i.where,
                   'an exception thrown by this call would end the process: %s must not throw' % f.short)


THROWS = re.compile(r'^__cxa_(re)?throw|^std::(stoi|stol|stoul|stoll|stod|stof|__throw_)|::at\(')


def raiser(p):
    """can an exception other than memory exhaustion leave the function?"""
    memo = {}

    def go(n):
        if n in memo:
            return memo[n]
        memo[n] = False
        f = p.funcs.get(n)
        if f is None:
            d = p.index.get(n, {})
            memo[n] = bool(THROWS.search(d.get('dem') or n))
            return memo[n]
        memo[n] = any(i.is_call and i.get('callee') and go(i.get('callee')) and not kept_in(f, i) for i in f.instrs())
        return memo[n]
    return go


def kept_in(f, i):
    """a handler for everything (or the end of the process) is all an exception of this call meets"""
    if i.op != 'invoke':
        return False
    for j in f.blocks[i.get('succ')[-1]].ins:
        if j.op == 'landingpad':
            return any(c[0] == 'catch' and c[1] in ('null', 'zero') for c in j.get('clauses') or [])
    return False


def leads(f, b, fatal):
    seen = set()
    while b not in seen:
        seen.add(b)
        if b in fatal:
            return True
        ss = f.blocks[b].succs
        if len(ss) != 1:
            return False
        b = ss[0]
    return False


def falls_off(ctx, f):
    for b in f.rpo:
        t = f.blocks[b].term
        if t.op != 'unreachable':
            continue
        ins = f.blocks[b].ins
        trap = any((i.dem or '').startswith('llvm.trap') for i in ins)
        bare = len(ins) == 1 and any(f.blocks[q].term.op == 'br' for q in f.blocks[b].preds)
        ctx.expect(not trap and not bare, 'result:%s' % f.short, f.where, 'a way through the function ends without a result')
