"""Lower bounds never exceed the distance they bound.

Every function that takes two series and a bound and is not a distance itself
is a lower bound; each value it can return must come with one of these
certificates.  Ends: the root of the squared differences of the first pair, of
the last pair, or of both if the series are not both of one point, scaled as the
warped distance is.  Envelope: the root of a sum that starts at zero and gains, at most
once per common position, the squared difference between a point of one series
and the upper envelope of the other at the same position, if the point is above
it, or the lower one, if it is below; the envelopes are asked for with the band
of the longer length.  Combination: another lower bound of the same pair, the
larger or the smaller of some, or infinity when one of them exceeds the bound.
A distance that is cut short by lower bounds is the warped Euclidean distance of
the same pair.  The envelopes themselves: typestate of the two queues of
candidate positions, so that no position that may still be the largest or smallest
of a window is dropped, and every position of the envelope is written from the front
of its queue after the window has been seen and before any of it is dropped.
"""
import re

from gx import api
from gx.lib import *
from gx.loops import loops_of, ranges
from gx.walk import walks, iterations, header_phis
from gx.kbest import INF
from gx.paths import rewrite
from gx.real import real, atom, lift, absolute, root, extreme, known, given
from gx.sym import minmax, neg_
from checks.c15 import DIST, LOW
from checks.c31 import Base, BAND

RULE = 'certificates of the values of lower bounds; typestate of the queues behind the envelopes'
ENV = r'^[^(]*\(double\*, int, int, double\*, double\*\)'
UP, DOWN = TS + '::getKeoghUpper', TS + '::getKeoghLower'


def run(ctx):
    p = ctx.prog(plan([DIST, LOW], [DIST, LOW, r'^genex::TimeSeries::(?!getLength|operator\[\])', r'^%s\(' % BAND]))
    roles = ts_roles(ctx)
    kinds = {}
    for f in sorted(p.funcs.values(), key=lambda f: f.dem):
        if not (re.search(LOW, f.dem) or re.search(DIST, f.dem)):
            continue
        low = bool(re.search(LOW, f.dem))
        if not low and not any(i.is_call and i.dem and re.search(LOW, i.dem) for i in f.instrs()):
            continue
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        b = Bound(ctx, f, s, roles, None, f.short.split('::')[-1])
        for k in b.run(low):
            kinds[k] = kinds.get(k, 0) + 1
    for k, n in kinds.items():
        ctx.count('%s values' % k, n)
    ctx.require('ends' in kinds and 'envelope' in kinds, 'the lower bounds were not found')
    args = accessors(ctx, roles)
    p = ctx.prog(plan([ENV], [r'^deque::']))
    n = 0
    for f in p.funcs.values():
        if re.search(ENV, f.dem):
            Envelope(ctx, f, ctx.sym(f, p, nogate=True), args).run()
            n += 1
    ctx.require(n == 1, 'the computation of the envelopes was not found')
    Ring(ctx).run()


class Bound(Base):
    def leaf(self, t):
        if t in self.acc:
            return atom(('acc', self.acc.index(t)))
        if t in self.len:
            return atom(('count', self.len.index(t)))
        pt = self.point(t)
        if pt:
            return atom((pt[0], pt[1].uid))
        e = self.envelope(t)
        if e:
            return atom(('env',) + e[:2] + (e[2].uid,))
        return None

    def envelope(self, t):
        """(series, 'up' or 'down', position) if t is a value of an envelope"""
        p = place(t)
        if p is None:
            return None
        r, o = ptr_parts(p)
        if r not in self.env or any(c % 8 for c in o.values()):
            return None
        return self.env[r] + (mkpoly({m: c // 8 for m, c in o.items() if c}),)

    def run(self, low):
        ctx, f, s = self.ctx, self.f, self.s
        self.acc = []
        self.B = [a for a in s.argT if a.args[2] == 'double'][0]
        self.L = extreme('max', [atom(('count', 0)), atom(('count', 1))])
        m, n = self.len
        self.base = [le0({(m,): -1, (): 1}), le0({(n,): -1, (): 1})]
        ctx.assume('series have at least one point')
        self.env, self.lows, self.dists = {}, {}, {}
        bands = {}
        for i in f.instrs():
            if not i.is_call:
                continue
            a = s.info[i.id].get('args') or []
            if i.short in (UP, DOWN) and a and a[0] in self.ab:
                who = 'ab'[self.ab.index(a[0])]
                self.env[s.vals[i.id]] = (who, 'up' if i.short == UP else 'down')
                ok = any(s.vals[c.id] is a[1] and s.info[c.id]['args'][0] is minmax('max', m, n)
                         for c in f.instrs() if c.is_call and c.short == BAND)
                self.check(ok, 'band', i.where, 'an envelope is not asked for with the band of the longer series')
                bands.setdefault(who, set()).add(a[1])
            elif i.dem and re.search(LOW, i.dem):
                if self.check(sorted(a[:2], key=id) == sorted(self.ab, key=id), 'pair', i.where, 'a lower bound of another pair is used'):
                    self.lows[s.vals[i.id]] = i
            elif i.dem and re.search(DIST, i.dem):
                self.dists[s.vals[i.id]] = i
        for v in bands.values():
            self.check(len(v) == 1, 'band', f.where, 'the envelopes of a series are asked for with different bands')
        kinds = []
        hs = [h for h in f.loops]
        if hs:
            self.check(len(hs) == 1, 'loop', f.where, 'a lower bound is not accumulated by one loop')
            kinds.append(self.looped(hs[0]))
            return [k for k in kinds if k]
        for w, b, nx in walks(s, 0, limit=20000):
            t = f.blocks[b].term
            if nx is not None or t.op != 'ret':
                continue
            v = w.res(s.val(t.ops[0]))
            fs = [w.res(x) for x in w.facts]
            k = self.combined(v, fs) or (self.distance(v) if not low else self.ends(v, fs))
            kinds.append(k)
            self.check(bool(k), 'value', t.where, 'a lower bound is returned that may exceed the distance of the pair' if low else
                       'what is returned is neither the warped Euclidean distance of the pair nor justified by a lower bound')
        return [k for k in kinds if k]

    def combined(self, v, fs):
        if v in self.lows:
            return 'combined'
        if v.op in ('fmax', 'fmin') and all(x in self.lows for x in v.args):
            return 'combined'
        if v is INF:
            for x in fs:
                pos = x.op != 'not'
                x = x if pos else x.args[0]
                if x.op != 'fcmp':
                    continue
                q, a, b = x.args[0][1:], x.args[1], x.args[2]
                if not pos:
                    q = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}.get(q)
                if q in ('gt', 'ge'):
                    a, b, q = b, a, {'gt': 'lt', 'ge': 'le'}[q]
                if q == 'lt' and a is self.B and (b in self.lows or b.op == 'fmax' and all(y in self.lows for y in b.args)):
                    return 'combined'
        return None

    def distance(self, v):
        i = self.dists.get(v)
        if i is None or 'warpedDistance<genex::Euclidean' not in i.dem:
            return None
        a = self.s.info[i.id]['args']
        return 'distance' if sorted(a[:2], key=id) == sorted(self.ab, key=id) else None

    def ends(self, v, fs):
        m, n = self.len
        last = [mkpoly(padd(poly(x), {(): -1})) for x in self.len]
        z = const(0).uid
        F = atom(('a', z)) - atom(('b', z))
        E = atom(('a', last[0].uid)) - atom(('b', last[1].uid))
        F, E = F * F, E * E
        fs = fs + self.base
        with known(given(fs, self.leaf)):
            r = real(v, self.leaf)
        for T, both in ((lift(0), False), (F, False), (E, False), (F + E, True)):
            if r.same(root(T) / (2 * self.L)):
                if not both or self.P.le(const(2), m, fs) or self.P.le(const(2), n, fs) or \
                        self.P.le(const(3), mkpoly(padd(poly(m), poly(n))), fs):
                    return 'ends'
        return None

    def looped(self, h):
        f, s = self.f, self.s
        m, n = self.len
        its = iterations(s, h)
        cnt = [a for a in header_phis(s, h) if a.args[2] != 'double' and not a.isbool and
               all(p == 'entry' or padd(poly(v), {(a,): 1}, -1) in ({(): 1}, {(): -1}) for p, v in s.minc[a].items())]
        accs = [a for a in header_phis(s, h) if a not in cnt and any(w.val(s.minc[a][b]) is not a for w, b in its)]
        where = f.blocks[h].term.where
        if not self.check(len(accs) == 1 and cnt, 'loop', where, 'the sum of a lower bound was not found'):
            return None
        self.acc = accs
        acc, A = accs[0], atom(('acc', 0))
        self.check(real(s.minc[acc]['entry'], self.leaf).same(lift(0)), 'start', f.where, 'the sum of a lower bound does not start at zero')

        def gain(w, v):
            """what v has more than the sum at the start of the iteration is justified"""
            fs = [w.res(x) for x in w.facts] + self.base
            g = given(fs, self.leaf)
            with known(g):
                d = real(v, self.leaf) - A
            if d.same(lift(0)):
                return True
            for x in [y for z in subterms(v) for y in [self.point(z)] if y]:
                for e in [y for z in subterms(v) for y in [self.envelope(z)] if y]:
                    if e[0] == x[0] or e[2] is not x[1] or x[1] not in cnt:
                        continue
                    D = atom((x[0], x[1].uid)) - atom(('env', e[0], e[1], e[2].uid))
                    up = D if e[1] == 'up' else -D
                    if d.same(D * D) and any(y.same(up) for y in g):
                        i = x[1]
                        return self.P.lt(i, m, fs) and self.P.lt(i, n, fs) and \
                            (s.minc[i]['entry'].op == 'int' and s.minc[i]['entry'].args[0] >= 0 or self.P.le(const(0), i, fs))
            return False
        for w, b in its:
            self.check(gain(w, w.val(s.minc[acc][b])), 'gain', where,
                       'a position adds something to the lower bound that every alignment need not pay')
            self.ctx.count('ways to add to a bound')
        c = 0
        for w, b, nx in walks(s, h):
            t = f.blocks[b].term
            if t.op != 'ret':
                continue
            c += 1
            v = w.res(s.val(t.ops[0]))
            if v is INF:
                continue
            q = real(v, self.leaf) * 2 * self.L
            q = q * q
            ok = q.same(A)
            if not ok:
                ok = any(q.same(real(u, self.leaf)) and gain(w, u) for x in subterms(v) if x.op == 'sqrt' for u in subterms(x.args[0]))
            self.check(ok, 'value', t.where, 'a lower bound is not the sum scaled as the distance is')
        self.check(c > 0, 'value', f.where, 'a lower bound is never returned')
        return 'envelope'


def accessors(ctx, roles):
    """the accessors of the envelopes hand out what was computed for the band; -> positions of the results among the arguments"""
    p = ctx.prog(plan([r'^%s\(' % UP, r'^%s\(' % DOWN], [ENV]))
    pos = {}
    for name, what in ((UP, 'upper'), (DOWN, 'lower')):
        f = ctx.one(p, name)
        s = ctx.sym(f, p, nogate=True)
        P = Prover(s)
        band = [a for a in s.argT if a.args[1] != 'this'][0]
        this = s.argT[0]
        n = mk('ld', roles.at(this, 'getLength'), 'i32', ())
        made = 0
        for w, b, nx in walks(s, 0, limit=20000):
            t = f.blocks[b].term
            if nx is not None or t.op != 'ret':
                continue
            cs = [i for i in w.instrs() if i.is_call and i.dem and re.search(ENV, i.dem)]
            if not cs:
                continue
            v = w.res(s.val(t.ops[0]))
            a = [w.res(x) for x in s.info[cs[-1].id]['args']]
            # what the member that is returned was set to
            at = [k for k in (3, 4) if a[k] is v]
            if not at and place(v) is not None:
                for i in w.instrs():
                    if i.op == 'store' and s.info[i.id]['ptr'] is place(v):
                        at = [k for k in (3, 4) if a[k] is w.res(s.info[i.id]['val'])]
            made += 1
            if ctx.expect(len(at) == 1, '%s:array' % what, t.where, 'the %s envelope is not the array that was just filled' % what):
                ctx.expect(pos.setdefault(what, at[0]) == at[0], '%s:array' % what, t.where, 'the %s envelope is not always the same result' % what)
            data = [x for x in (mk('ld', roles.at(this, 'getData'), 'ptr', ()),)]
            r, o = ptr_parts(a[0])
            start = mk('ld', roles.at(this, 'getStart'), 'i32', ())
            ctx.expect(place(r) is place(data[0]) and shape(o) == [(place(start), 8)], '%s:points' % what, cs[-1].where,
                       'the envelope is not computed from the first point of the series on')
            ctx.expect(place(a[1]) is place(n), '%s:length' % what, cs[-1].where, 'the envelope is not computed for the length of the series')
            ln = mkpoly(padd(poly(a[1]), {(): -1}))
            ok = a[2] is band or a[2] is minmax('min', band, ln) or \
                P.le(minmax('min', band, ln), a[2], [w.res(x) for x in w.facts])
            ctx.expect(ok, '%s:band' % what, cs[-1].where, 'the envelope is computed for a smaller band than asked for')
        ctx.require(made > 0, '%s: the computation of the envelope was not found' % name)
        ctx.count('accessors of envelopes')
    ctx.expect(len(set(pos.values())) == 2, 'envelope:distinct', f.where, 'both envelopes are the same array')
    return pos


def shape(o):
    """offset as a list of (place of the factor, coefficient)"""
    return sorted(((place(m[0]) if len(m) == 1 else None, c) for m, c in o.items() if c), key=str)


class Envelope:
    """typestate of the queues of candidate positions"""
    def __init__(self, ctx, f, s, args):
        self.ctx, self.f, self.s = ctx, f, s
        self.t, self.n, self.r = s.argT[0], s.argT[1], s.argT[2]
        self.arr = {s.argT[k]: w for w, k in args.items()}
        self.P = Prover(s)
        self.base = [le0({(self.r,): -1}), le0({(self.n,): -1, (): 1})]
        ctx.assume('the band is not negative and series have at least one point')

    def bad(self, what, where, msg):
        self.ctx.expect(False, 'envelope:' + what, where, msg)

    def need(self, cond, what, where, msg):
        return self.ctx.expect(bool(cond), 'envelope:' + what, where, msg)

    def op(self, i):
        """(operation, queue) of a call on a queue"""
        if i.is_call and i.dem and i.dem.startswith('deque::'):
            a = self.s.info[i.id]['args']
            return i.dem[7:].split('(')[0], a[0]
        return None, None

    def at(self, t):
        """position of a point of the series the value was read from"""
        p = place(t)
        if p is None:
            return None
        r, o = ptr_parts(p)
        if r is not self.t or any(c % 8 for c in o.values()):
            return None
        return mkpoly({m: c // 8 for m, c in o.items() if c})

    def compared(self, x):
        """(p, q, strict) if the fact says point p < or <= point q"""
        pos = x.op != 'not'
        x = x if pos else x.args[0]
        if x.op != 'fcmp':
            return None
        q, a, b = x.args[0][1:], self.at(x.args[1]), self.at(x.args[2])
        if a is None or b is None:
            return None
        if not pos:
            q = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}.get(q)
        if q in ('gt', 'ge'):
            a, b, q = b, a, {'gt': 'lt', 'ge': 'le'}[q]
        return (a, b) if q in ('lt', 'le') else None

    def run(self):
        f, s, ctx = self.f, self.s, self.ctx
        # which queue serves which envelope
        self.kind, self.writes = {}, []
        rets_ = {s.vals[i.id]: i for i in f.instrs() if i.is_call and i.id in s.vals}
        self.calls = rets_
        for i in f.instrs():
            if i.op != 'store':
                continue
            r, o = ptr_parts(s.info[i.id]['ptr'])
            if r not in self.arr:
                continue
            x = self.at(s.info[i.id]['val'])
            c = rets_.get(x)
            op, q = self.op(c) if c is not None else (None, None)
            if not self.need(op == 'front', 'value', i.where, 'an envelope is set to something other than the first candidate of its queue'):
                continue
            self.need(self.kind.setdefault(q, self.arr[r]) == self.arr[r], 'queue', i.where, 'one queue serves both envelopes')
            self.writes.append((i, c, q, mkpoly({m: k // 8 for m, k in o.items() if k})))
        ctx.require(len(self.kind) == 2 and len(set(self.kind.values())) == 2, 'the queues behind the envelopes were not found')
        self.main = {}
        for q in self.kind:
            hs = set()
            for i in f.instrs():
                op, d = self.op(i)
                if op == 'push_back' and d is q:
                    for h in loops_of(f, i.blk):
                        if s.info[i.id]['args'][1] in header_phis(s, h):
                            hs.add(h)
            if not self.need(len(hs) == 1, 'candidates', f.where, 'positions are not added to a queue by one loop'):
                return
            self.main[q] = hs.pop()
        for q in sorted(self.kind, key=lambda q: self.kind[q]):
            self.queue(q)
            self.cover(q)
            ctx.count('queues')

    # ------------------------------------------------------------------ states
    def queue(self, q):
        f, s = self.f, self.s
        h = self.main[q]
        start = (('new', None), frozenset())
        seen = {0: {start}}
        work = [(0, start)]
        self.seen_push = False
        while work:
            b, st = work.pop()
            for i in f.blocks[b].ins:
                st = self.step(i, q, st)
            t = f.blocks[b].term
            for n in dict.fromkeys(f.blocks[b].succs):
                if t.op == 'invoke' and len(t.get('succ')) > 1 and t.get('succ')[1] == n:
                    continue
                if api.dead_edge(s, b, n):
                    continue
                ns = self.edge(b, n, q, st, h)
                if ns is not None and ns not in seen.setdefault(n, set()):
                    seen[n].add(ns)
                    work.append((n, ns))
        self.ctx.count('states of queues', sum(len(v) for v in seen.values()))

    def dominates(self, q, x, y):
        """point y may be dropped from the queue once point x has been added"""
        return (y, x) if self.kind[q] == 'upper' else (x, y)

    def step(self, i, q, st):
        (state, val), fresh = st
        op, d = self.op(i)
        if d is not q:
            return st
        s = self.s
        w = i.where
        if op in ('back', 'front', 'empty'):
            return (state, val), fresh | {i.id}
        fs = list(s.facts(i.blk))
        cmp_ = [c for c in (self.compared(x) for x in fs) if c]
        if op == 'push_back':
            v = s.info[i.id]['args'][1]
            ok = state in ('new', 'fit')
            if state == 'back':
                ok = self.dominates(q, val, v) in cmp_
            self.need(ok, 'push', w, 'a position is added behind one whose point it exceeds, so the front is not the %s' %
                      ('largest' if self.kind[q] == 'upper' else 'smallest'))
            return ('back', v), frozenset()
        if op == 'pop_back':
            h = self.main[q]
            i_ = self.counter(q)
            cand = [s.vals[c] for c in fresh if self.op(self.calls.get(s.vals.get(c)) or i)[0] == 'back'] + ([val] if state == 'back' else [])
            ok = any(self.dominates(q, i_, y) in cmp_ for y in cand)
            self.need(ok and i.blk in self.f.loops[h], 'drop', w, 'a candidate is dropped that may still be the %s of a window' %
                      ('largest' if self.kind[q] == 'upper' else 'smallest'))
            return ('open', None), frozenset()
        if op == 'pop_front':
            fronts = [s.vals[c] for c in fresh if self.op(self.calls.get(s.vals.get(c)) or i)[0] == 'front']
            p = self.next_write(i, q)
            ok = p is not None and any(self.P.lt(y, mkpoly(padd(poly(p), {(self.r,): -1})), fs + self.base) for y in fronts)
            self.need(ok, 'expire', w, 'the first candidate is dropped while it is still inside a window to come')
            keep = state == 'back' and ok and val is self.counter(q)
            return (state if keep or state in ('fit', 'open') else 'open', val if keep else None), frozenset()
        return st

    def counter(self, q):
        f, s = self.f, self.s
        for i in f.instrs():
            op, d = self.op(i)
            v = s.info[i.id]['args'][1] if op == 'push_back' else None
            if d is q and v in header_phis(s, self.main[q]):
                return v

    def edge(self, b, n, q, st, h):
        s, f = self.s, self.f
        (state, val), fresh = st
        t = f.blocks[b].term
        if t.op == 'br' and len(t.get('succ')) == 2 and t.get('succ')[0] != t.get('succ')[1]:
            nf = []
            s.cond_facts(s.asbool(s.val(t.ops[0])), t.get('succ')[0] == n, nf)
            if any(self.cannot(x, q, st) for x in nf):
                return None
            if any(self.emptiness(x, q, fresh) is True for x in nf):
                state, val = 'fit', 'empty'
            elif any(self.fits(x, q, st) for x in nf):
                state, val = 'fit', val if state == 'fit' else None
        if n == h:
            c = self.counter(q)
            inc = s.minc[c]['entry' if b not in f.loops[h] else b]
            inside = b in f.loops[h]
            ok = state == 'back' and padd(poly(inc), poly(val), -1) == {(): 1}
            self.need(ok, 'all', f.blocks[b].term.where, 'a position may be left out of the queue' if inside else
                      'the queue does not start with the position before the first one added')
            return ('back', mkpoly({(c,): 1, (): -1})) if ok else ('open', None), frozenset()
        return (state, val), fresh

    def cannot(self, x, q, st):
        """the fact contradicts what is known of the queue"""
        (state, val), fresh = st
        e = self.emptiness(x, q, fresh)
        return e is True and state == 'back' or e is False and (state, val) == ('fit', 'empty')

    def emptiness(self, x, q, fresh):
        """True/False if the fact says that the queue is (not) empty"""
        pos = x.op != 'not'
        x = x if pos else x.args[0]
        if x.op == 'eq0':
            v = x.args[0]
            c = self.calls.get(v)
            if c is not None and c.id in fresh and self.op(c) == ('empty', q):
                return not pos
        return None

    def fits(self, x, q, st):
        """after this fact the position of the iteration may be added"""
        (state, val), fresh = st
        if x.op == 'not' and x.args[0].op == 'and':
            return all(self.fits(neg_(y), q, st) for y in x.args[0].args)
        if x.op == 'or':
            return all(self.fits(y, q, st) for y in x.args)
        if self.emptiness(x, q, fresh) is True:
            return True
        c = self.compared(x)
        if not c:
            return False
        backs = [self.s.vals[k] for k in fresh if self.op(self.calls.get(self.s.vals.get(k)) or self.f.blocks[0].ins[0])[0] == 'back']
        if state == 'back':
            backs.append(val)
        v = self.counter(q)
        return any(self.dominates(q, y, v) == c for y in backs)

    # ------------------------------------------------------------------ what is written when
    def loop_writes(self, q):
        out = {}
        for i, c, d, p in self.writes:
            if d is q:
                ls = loops_of(self.f, i.blk)
                out.setdefault(ls[-1] if ls else None, []).append((i, c, p))
        return out

    def next_write(self, i, q):
        """position of the envelope that is written next after instruction i"""
        f, s = self.f, self.s
        lw = self.loop_writes(q)
        ls = [h for h in loops_of(f, i.blk) if h in lw]
        if not ls:
            return None
        h = ls[-1]
        c = [r for r in ranges(s, h) if r.step == 1]
        ps = {p for _, _, p in lw[h]}
        if len(ps) != 1:
            return None
        p = ps.pop()
        c = [r.atom for r in c if any(r.atom in m for m in poly(p))]
        if len(c) != 1:
            return None
        # does a write follow in the same iteration?
        blks = {j.blk for j, _, _ in lw[h]}
        todo, seen = [b for b in f.blocks[i.blk].succs], set()
        after = any(j.blk == i.blk and f.blocks[i.blk].ins.index(j) > f.blocks[i.blk].ins.index(i) for j, _, _ in lw[h])
        while todo and not after:
            b = todo.pop()
            if b == h or b in seen or b not in f.loops[h]:
                continue
            seen.add(b)
            after = b in blks
            todo += f.blocks[b].succs
        return p if after else rewrite(p, {c[0]: mkpoly({(c[0],): 1, (): 1})})

    def cover(self, q):
        f, s, P = self.f, self.s, self.P
        which = self.kind[q]
        h = self.main[q]
        rs = [r for r in ranges(s, h) if r.atom is self.counter(q)]
        where = f.blocks[h].term.where
        if not self.need(len(rs) == 1 and rs[0].step == 1 and not rs[0].early and rs[0].hi is self.n, which + ':all', where,
                         'not every position of the series becomes a candidate'):
            return
        i = rs[0].atom
        lw = self.loop_writes(q)
        tail = [g for g in lw if g != h]
        if not self.need(None not in lw and len(tail) == 1 and h in lw, which + ':cover', where, 'the envelope is not written while and after reading the series'):
            return
        pos = {}
        for g, ws in lw.items():
            ps = {p for _, _, p in ws}
            if not self.need(len(ps) == 1, which + ':cover', where, 'an iteration writes several positions of the envelope'):
                return
            pos[g] = ps.pop()
        # while reading: only positions whose window has been seen
        for j, c, p in lw[h]:
            pushes = [x for x in f.instrs() if self.op(x) == ('push_back', q) and x.blk in f.loops[h]]
            seen = i if any(f.i_dominates(x, c) for x in pushes) else mkpoly({(i,): 1, (): -1})
            self.need(P.le(mkpoly(padd(poly(p), {(self.r,): 1})), seen, list(s.facts(j.blk)) + self.base), which + ':window', j.where,
                      'an envelope is written before its whole window has been read')
        blks = {j.blk for j, _, _ in lw[h]}
        for w, b in iterations(s, h):
            if not set(w.path) & blks:
                self.need(P.lt(pos[h], const(0), [w.res(x) for x in w.facts] + self.base), which + ':cover', where,
                          'a position of the envelope may be left out')
        g = tail[0]
        rt = [r for r in ranges(s, g) if r.step == 1 and any(r.atom in m for m in poly(pos[g]))]
        where = f.blocks[g].term.where
        if self.need(len(rt) == 1 and not rt[0].early, which + ':cover', where, 'the end of the envelope is not written by a counting loop'):
            k = rt[0].atom
            first = rewrite(pos[g], {k: rt[0].lo})
            after = rewrite(pos[h], {i: self.n})
            self.need(first is after, which + ':cover', where, 'the end of the envelope does not start where the rest stops')
            final = rewrite(pos[g], {k: mkpoly(padd(poly(rt[0].hi), {(): -1}))})
            self.need(P.le(mkpoly(padd(poly(self.n), {(): -1})), final, self.base), which + ':cover', where, 'the last positions of the envelope are not written')
            blks = {j.blk for j, _, _ in lw[g]}
            for w, b in iterations(s, g):
                self.need(set(w.path) & blks, which + ':cover', where, 'a position at the end of the envelope may be left out')
        self.ctx.count('envelopes')


class Ring:
    """the queues are double-ended queues in a circular array: what is added last is at the back, what was added first at the front"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.prog(plan([r'^deque::']))

    def fun(self, name):
        f = self.ctx.one(self.p, 'deque::' + name)
        s = self.ctx.sym(f, self.p, nogate=True)
        out = []
        for w, b, nx in walks(s, 0):
            t = f.blocks[b].term
            if nx is not None or t.op != 'ret':
                continue
            mem, cells = {}, []
            for i in w.instrs():
                if i.op == 'store':
                    q, v = w.res(s.info[i.id]['ptr']), w.res(s.info[i.id]['val'])
                    r, o = ptr_parts(q)
                    if r is s.argT[0]:
                        mem[o.get((), 0)] = v
                    else:
                        cells.append((q, v))
            out.append((mem, cells, w.res(s.val(t.ops[0])) if t.ops else None, [w.res(x) for x in w.facts]))
        return f, s, out

    def field(self, s, t):
        """member of the queue the value was read from"""
        q = place(t)
        if q is None:
            return None
        r, o = ptr_parts(q)
        return o.get((), 0) if r is s.argT[0] and not set(o) - {()} else None

    def moved(self, s, v, at, fs):
        """(direction, member) of an index that is a neighbour of the one in a member; direction 0: the same"""
        P = Prover(s)
        cap = [x for z in [v] + fs for x in subterms(z) if self.field(s, x) == self.cap]
        c = cap[0] if cap else None
        for x in {x for z in [v] + fs for x in subterms(z) if self.field(s, x) == at}:
            d = padd(poly(v), {(x,): 1}, -1)
            if not d:
                return 0
            fs = fs + [le0({(x,): -1})]         # an index is inside the array
            if c is not None:
                fs = fs + [le0({(x,): 1, (c,): -1, (): 1})]
            if d == {(): -1} and P.le(const(1), x, fs):
                return -1
            if c is None:
                continue
            up = mkpoly({(x,): 1, (): 1})
            if d == {(): 1} and P.lt(up, c, fs) or v is const(0) and P.le(c, up, fs):
                return 1
            if v is mkpoly({(c,): 1, (): -1}) and P.le(x, const(0), fs):
                return -1
            if v.op == 'srem' and v.args[1] is c:
                e = padd(poly(v.args[0]), {(x,): 1}, -1)
                if e == {(): 1}:
                    return 1
                if e == {(c,): 1, (): -1}:
                    return -1
        return None

    def cell(self, s, q):
        """index of an element of the array"""
        r, o = ptr_parts(q)
        if self.field(s, r) is None or any(c % 4 for c in o.values()):
            return None
        return mkpoly({m: c // 4 for m, c in o.items() if c})

    def one(self, f, xs, what):
        """the same answer on every way"""
        xs = list(xs)
        return xs[0] if xs and None not in xs and len(set(xs)) == 1 else None

    def run(self):
        ctx = self.ctx

        def need(c, what, f, msg):
            return ctx.expect(bool(c), 'queue:' + what, f.where, msg)
        f, s, ws = self.fun('empty')
        cnt = self.one(f, (self.field(s, x) for m, c, v, fs in ws for x in subterms(v) if self.field(s, x) is not None), '')
        sz = [x for m, c, v, fs in ws for x in subterms(v) if self.field(s, x) == cnt]
        none = [eq0(poly(sz[0])), le0(poly(sz[0]))] if sz else []
        need(cnt is not None and all((v.args[0] if v.op in ('zext', 'bool') else v) in none for m, c, v, fs in ws), 'empty', f,
             'the queue does not tell whether it is empty by its number of elements')
        f, s, ws = self.fun('deque')
        cap_arg = s.argT[1]
        caps = [k for k, v in ws[0][0].items() if v is cap_arg]
        ctx.require(len(caps) == 1 and cnt is not None, 'the members of the queue were not found')
        self.cap = caps[0]
        init = ws[0][0]
        need(init.get(cnt) is const(0), 'new', f, 'a new queue is not empty')
        f, s, ws = self.fun('push_back')
        idx = [(self.cell(s, c[0][0]), c[0][1]) if len(c) == 1 else (None, None) for m, c, v, fs in ws]
        back = self.one(f, (self.field(s, i) if i is not None else None for i, v in idx), '')
        if not need(back is not None and all(v is s.argT[1] for i, v in idx), 'push', f, 'an element is not added at the back'):
            return
        d = self.one(f, (self.moved(s, m[back], back, fs) if back in m else None for m, c, v, fs in ws), '')
        if not need(d in (1, -1) and all(self.change(s, m, cnt) == 1 for m, c, v, fs in ws), 'push', f, 'adding an element does not advance the back by one place'):
            return
        f, s, ws = self.fun('pop_back')
        need(all(set(m) == {back, cnt} and self.moved(s, m[back], back, fs) == -d and self.change(s, m, cnt) == -1 and not c for m, c, v, fs in ws),
             'pop_back', f, 'removing the last element does not undo adding it')
        f, s, ws = self.fun('back')
        need(all(not m and not c and place(v) is not None and self.cell(s, place(v)) is not None and
                 self.moved(s, self.cell(s, place(v)), back, fs) == -d for m, c, v, fs in ws), 'back', f, 'the last element is not the one added last')
        f, s, ws = self.fun('pop_front')
        fronts = [k for k in ws[0][0] if k not in (cnt,)]
        front = fronts[0] if len(fronts) == 1 else None
        if not need(front not in (None, back) and all(set(m) == {front, cnt} and self.moved(s, m[front], front, fs) == d and
                    self.change(s, m, cnt) == -1 and not c for m, c, v, fs in ws), 'pop_front', f, 'removing the first element does not advance the front by one place'):
            return
        f, s, ws = self.fun('front')
        at = self.one(f, (self.moved(s, self.cell(s, place(v)), front, fs) if place(v) is not None and self.cell(s, place(v)) is not None else None
                          for m, c, v, fs in ws), '')
        # where the first element goes in a new queue
        fv, bv = init.get(front), init.get(back)
        ok = at == 0 and fv is bv
        if at == d == -1:
            ok = fv is const(0) and bv is mkpoly({(cap_arg,): 1, (): -1}) or padd(poly(fv), poly(bv), -1) == {(): 1}
        if at == d == 1:
            ok = bv is const(0) and fv is mkpoly({(cap_arg,): 1, (): -1}) or padd(poly(bv), poly(fv), -1) == {(): 1}
        need(ok, 'front', f, 'the first element is not the one added first')
        ctx.count('operations of queues', 7)

    def change(self, s, m, k):
        """by how much a member changes"""
        v = m.get(k)
        if v is None:
            return 0
        xs = [x for x in subterms(v) if self.field(s, x) == k]
        d = padd(poly(v), {(xs[0],): 1}, -1) if xs else None
        return d.get((), 0) if d is not None and set(d) <= {()} else None
