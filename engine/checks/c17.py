"""A requested alignment is a complete, monotone warping path.

Every distance computation that changes the alignment it is given is flattened
(found by its parameter types).  The alignment is built by a loop that walks
from the last pair of points: each iteration adds the current pair exactly
once and then moves to a neighbour, one or both positions smaller by one and
never below zero (inductive), and where it has a choice to a neighbour whose cost
is the smallest of the three; with an alignment wanted, the loop ends only at
the first pair, which is then added, and the whole is reversed once with
nothing added afterwards.  The table of costs starts as infinite.  The public
operation computes the alignment with an initially empty one and an infinite
bound, only under the test that the name carries the suffix of a warped distance, and hands it out unchanged.
"""
import re

from gx import api
from gx.lib import *
from gx.loops import loops_of
from gx.walk import walks, iterations, leaves, header_phis
from gx.sym import fcmp, neg_
from gx.models import size_of
from gx.kbest import INF, is_dist_call
from checks.c15 import DIST, LOW

RULE = 'step typestate of the trace-back loop; dominance of the suffix test'
PUSH = ('std::vector::push_back', 'std::vector::emplace_back')


def run(ctx):
    p = ctx.prog(plan([DIST], [DIST, LOW, r'^genex::TimeSeries::(?!getLength|operator\[\])']))
    n = 0
    for f in p.funcs.values():
        if not re.search(DIST, f.dem):
            continue
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        al = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] not in ('this', 'sret')][2]
        tr = transfers(f, s, al)
        own = {al} | set(tr.values())
        ps = [i for i in f.instrs() if i.is_call and i.short in PUSH and s.info[i.id]['call'].this in own]
        if ps:
            Trace(ctx, f, s, al, ps, tr).run()
            n += 1
            ctx.count('computations that build alignments')
    ctx.require(n >= 1, 'no distance computation builds an alignment')
    public(ctx)


def transfers(f, s, al):
    """{call: local list} where a list built locally becomes the alignment handed out"""
    out = {}
    for i in f.instrs():
        c = s.info.get(i.id, {}).get('call') if i.is_call else None
        if c is None:
            continue
        a = list(c.params)
        if i.short == 'std::vector::operator=' and c.this is al or i.short == 'std::vector::swap' and c.this is al:
            src = a[0]
        elif i.short == 'std::vector::swap' and a and a[0] is al:
            src = c.this
        elif i.short == 'std::swap' and len(a) == 2 and al in a:
            src = a[1] if a[0] is al else a[0]
        else:
            continue
        if src.op == 'alloca':
            out[i.id] = src
    return out


class Trace:
    def __init__(self, ctx, f, s, al, ps, tr):
        self.tr = tr
        self.ctx, self.f, self.s, self.al = ctx, f, s, al
        self.key = re.search(r'(\w+(<[^()]*>)?)\(genex::TimeSeries', f.dem).group(1).replace('genex::', '')
        self.push = {i.id: self.pair(i) for i in ps}
        self.pr = Prover(s)
        a, b = [x for x in s.argT if x.args[2] == 'ptr' and x.args[1] not in ('this', 'sret')][:2]
        ts = ts_roles(ctx)
        st = s.instate[0]
        self.last = tuple(mkpoly(padd(poly(s.peek(st, ts.at(x, 'getLength'), 'i32')), {(): -1})) for x in (a, b))

    def pair(self, i):
        s = self.s
        c = s.info[i.id]['call']
        st = api.state_before(s, i)
        if len(c.params) == 2:
            return tuple(s.peek(st, x, 'i32') for x in c.params)
        return (s.peek(st, c.params[0], 'i32'), s.peek(st, ptr_add(c.params[0], {(): 4}), 'i32'))

    def run(self):
        ctx, f, s, key = self.ctx, self.f, self.s, self.key
        inl = [i for i in f.instrs() if i.id in self.push and loops_of(f, i.blk)]
        hs = {loops_of(f, i.blk)[-1] for i in inl}
        if not ctx.expect(len(hs) == 1, key + ':loop', f.where, 'the alignment is not built by one loop'):
            return
        h = hs.pop()
        # the list being built, empty at first
        into = {s.info[i.id]['call'].this for i in inl}
        ok = len(into) == 1
        if ok:
            self.built = into.pop()
            if self.built is not self.al:
                ok = all(size_of(s, s.peek(s.outstate[p], self.built, 'obj')) is const(0)
                         for p in f.blocks[h].preds if p not in f.loops[h])
        if not ctx.expect(ok, key + ':loop', f.where, 'the alignment is not built in one list that is empty at first'):
            return
        ctx.expect(len(loops_of(f, h)) == 1, key + ':loop', f.where, 'the alignment is built more than once')
        # the two positions
        ph = [a for a in header_phis(s, h) if s.minc[a]['entry'] in self.last]
        pi = [a for a in ph if s.minc[a]['entry'] is self.last[0]]
        pj = [a for a in ph if s.minc[a]['entry'] is self.last[1]]
        cur = {v for i in inl for v in [self.push[i.id]]}
        at = None
        for a in pi:
            for b in pj:
                if a is not b and (a, b) in cur:
                    at = (a, b)
        if not ctx.expect(at is not None, key + ':start', inl[0].where, 'the alignment does not end at the last pair of points'):
            return
        self.steps(h, at)
        self.ending(h, at)
        self.table(h)

    def steps(self, h, at):
        ctx, f, s, key = self.ctx, self.f, self.s, self.key
        i, j = at
        inv = [le0({(i,): -1}), le0({(j,): -1})]
        for (x, nm) in ((i, 0), (j, 1)):
            ok = False
            for fs in ([list(s.facts(p)) for p in f.blocks[h].preds if p not in f.loops[h]]):
                ok = self.pr.le(const(0), s.minc[x]['entry'], fs)
            ctx.expect(ok, key + ':start', f.where, 'the trace back may start before the first point')
        for w, b in iterations(s, h):
            where = f.blocks[b].term.where
            ps = [k for k in w.instrs() if k.id in self.push]
            ctx.expect(len(ps) == 1 and tuple(w.val(v) for v in self.push[ps[0].id]) == at, key + ':each', where,
                       'an iteration of the trace back does not add the current pair exactly once')
            d = []
            for x in at:
                v = w.val(s.minc[x][b])
                q = {m: c for m, c in padd(poly(v), {(x,): 1}, -1).items() if c}
                d.append(q.get((), 0) if set(q) <= {()} else None)
            good = tuple(d) in ((-1, 0), (0, -1), (-1, -1))
            if not ctx.expect(good, key + ':step', where, 'a step of the trace back does not move one or both positions by exactly one'):
                continue
            fs = list(w.facts) + inv + [le0({(x,): -1, (): 1}) for x in at if mk('not', eq0({(x,): 1})) in w.fset]
            if self.pr.absurd(fs) or self.order(w) is None:
                continue
            ctx.expect(all(k == 0 or self.pr.lt(const(0), x, fs) for k, x in zip(d, at)), key + ':below', where,
                       'a step of the trace back may go before the first point')
            edge_ = eq0({(i,): 1}) in w.fset or eq0({(j,): 1}) in w.fset
            if not edge_:
                ctx.expect(self.cheapest(w, at, tuple(d)), key + ':choice', where,
                           'the trace back does not go to the cheapest neighbour')
            ctx.count('kinds of steps')

    def near(self, at, d):
        """values read from the neighbour cell"""
        s = self.s
        i, j = (mkpoly(padd({(x,): 1}, {(): k})) for x, k in zip(at, d))
        out = set()
        for k in self.f.instrs():
            if k.op == 'load':
                p = s.info[k.id]['ptr']
                if p.op == 'elem' and p.args[0].op == 'elem' and p.args[1] is j and p.args[0].args[1] is i and \
                        loops_of(self.f, k.blk):
                    out.add(s.vals[k.id])
        return out

    def cheapest(self, w, at, d):
        nb = {x: self.near(at, x) for x in ((-1, -1), (-1, 0), (0, -1))}
        if any(len(v) != 1 for v in nb.values()):
            return False
        nb = {k: v.pop() for k, v in nb.items()}
        allv = set(nb.values())

        def tree(t):
            return tree(t.args[0]) | tree(t.args[1]) if t.op == 'fmin' else {t}

        def is_min(v):
            """fact: v equals the smallest of all; False: differs from it; None: unknown"""
            for x in w.facts:
                pos = True
                if x.op == 'not':
                    x, pos = x.args[0], False
                if x.op == 'fcmp' and x.args[0] in ('oeq', 'one', 'ueq', 'une'):
                    a, b = x.args[1], x.args[2]
                    for u, t in ((a, b), (b, a)):
                        if u is v and t.op == 'fmin' and tree(t) == allv:
                            return pos if x.args[0] in ('oeq', 'ueq') else not pos
            return None
        c = nb[d]
        if is_min(c):
            return True
        others = [k for k in nb if k != d]
        if all(is_min(nb[k]) is False for k in others):
            return True
        # pairwise comparisons
        le = self.order(w)
        return all((c, nb[k]) in le or is_min(nb[k]) is False for k in others)

    def order(self, w):
        """the order between costs that the comparisons made so far imply; None if they contradict"""
        le, lt = set(), set()
        for x in w.facts:
            pos = True
            if x.op == 'not':
                x, pos = x.args[0], False
            if x.op != 'fcmp':
                continue
            r, a, b = x.args[0][1:], x.args[1], x.args[2]
            if not pos:
                r = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}.get(r)
            if r in ('gt', 'ge'):
                a, b, r = b, a, 'l' + r[1]
            if r in ('le', 'lt', 'eq'):
                le.add((a, b))
            if r == 'lt':
                lt.add((a, b))
            if r == 'eq':
                le.add((b, a))
        more = True
        while more:
            new = {(a, d) for a, b in le for c, d in le if b is c} - le
            le |= new
            more = bool(new)
        if any((b, a) in le for a, b in lt):
            return None
        return le

    def ending(self, h, at):
        ctx, f, s, key = self.ctx, self.f, self.s, self.key
        i, j = at
        n0 = mk('size', mk('ld', self.al, 'obj', ()))
        revs = [k for k in f.instrs() if k.is_call and k.short == 'std::reverse']
        for w, b, n in leaves(s, h):
            asked = not self.pr.lt(const(0), n0, w.facts)
            if asked:
                ok = self.pr.le(i, const(0), w.facts) and self.pr.le(j, const(0), w.facts) or \
                    eq0({(i,): 1}) in w.fset and eq0({(j,): 1}) in w.fset
                ctx.expect(ok, key + ':first', f.blocks[b].term.where, 'the trace back may end before it has reached the first pair')
            else:
                continue
            base = [x for x in w.facts]
            for v, e, _ in walks(s, n, facts=base + [le0({(n0,): 1})]):
                if f.blocks[e].term.op != 'ret':
                    continue
                seq = []
                for k in v.instrs():
                    if k.id in self.push:
                        seq.append(s.info[k.id]['call'].this is self.built and (
                            tuple(v.val(x) for x in self.push[k.id]) == (const(0), const(0)) or
                            tuple(v.val(x) for x in self.push[k.id]) == at))
                    elif k in revs:
                        a = s.info[k.id]['args']
                        full = a[0].op == 'vit' and a[0].args[0] is self.built and a[0].args[1] is const(0) and \
                            a[1].op == 'vit' and a[1].args[0] is self.built and \
                            a[1].args[1] is size_of(s, s.peek(api.state_before(s, k), self.built, 'obj'))
                        seq.append('r' if full else None)
                    elif k.id in self.tr:
                        seq.append('t' if self.tr[k.id] is self.built else None)
                    elif k.is_call and (k.short or '').endswith('::~vector'):
                        pass
                    elif k.is_call and s.info.get(k.id, {}).get('call') is not None and \
                            s.info[k.id]['call'].this in (self.al, self.built) and \
                            not (k.dem or '').endswith('const') and k.short not in ('std::vector::begin', 'std::vector::end'):
                        seq.append(None)
                ctx.expect(seq == ([True, 'r'] if self.built is self.al else [True, 'r', 't']), key + ':completed', f.blocks[e].term.where,
                           'the alignment is not completed with the first pair and put into order')
                ctx.count('ways to hand out an alignment')
        # alignments built without the loop: a single pair
        # (blocks from which a return is reached without it)
        past = {b for b in f.rpo if f.blocks[b].term.op == 'ret'}
        while True:
            more = {b for b in f.rpo if b != h and b not in past and any(n in past for n in f.blocks[b].succs)}
            if not more:
                break
            past |= more
        for w, b, n in walks(s, 0, region=past, stop=lambda b, n: n == h) if 0 in past else []:
            if n is not None or f.blocks[b].term.op != 'ret':
                continue
            if self.pr.lt(const(0), n0, w.facts):
                continue
            ps = [tuple(w.val(x) for x in self.push[k.id]) for k in w.instrs() if k.id in self.push]
            zero = all(self.pr.le(x, const(0), w.facts) for x in self.last)
            ctx.expect(ps == [(const(0), const(0))] and zero, key + ':short', f.blocks[b].term.where,
                       'an alignment is wanted but not built')

    def table(self, h):
        """costs start as infinite"""
        ctx, f, s, key = self.ctx, self.f, self.s, self.key
        ms = set()
        for k in f.instrs():
            if k.op == 'load' and k.blk in f.loops[h]:
                p = s.info[k.id]['ptr']
                if p.op == 'elem' and p.args[0].op == 'elem':
                    ms.add(p.args[0].args[0])
        for M in ms:
            ok = False
            for k in f.instrs():
                c = s.info.get(k.id, {}).get('call') if k.is_call else None
                if c is None or c.this is not M or not c.isctor:
                    continue
                inner = [x for x in c.params if x.op == 'alloca']
                for q in f.instrs():
                    d = s.info.get(q.id, {}).get('call') if q.is_call else None
                    if d is not None and d.isctor and d.this in inner:
                        ok |= any(s.peek(api.state_before(s, q), x, 'double') is INF for x in d.params if x.op == 'alloca')
            ctx.expect(ok, key + ':table', f.where, 'cells that are never computed do not count as infinitely far')


def public(ctx):
    nm = 'genex::GenexAPI::matchingBetween'
    p = ctx.prog(['index'] + plan([r'^%s\(' % nm], [r'^genex::TimeSeriesSet::', r'^genex::getDistanceFromName\(', r'^genex::TimeSeries::']))
    f = ctx.one(p, nm)
    s = ctx.sym(f, p, nogate=True)
    names = [s.info[i.id]['args'][0] for i in f.instrs() if i.is_call and i.short == 'genex::getDistanceFromName']
    calls = [i for i in f.instrs() if is_dist_call(s, i)]
    ctx.require(names and calls, 'the alignment operation no longer computes a distance by name')
    content = s.peek(s.instate[0], names[0], 'obj')

    def lit(t):
        if t.op == 'str' and t.args[0].op == 'global':
            i = p.globals.get(t.args[0].args[0], {}).get('init')
            return i.get('str') if isinstance(i, dict) else None
        if t.op == 'global':
            i = p.globals.get(t.args[0], {}).get('init')
            return i.get('str') if isinstance(i, dict) else None
        return None

    def tests_suffix(x):
        """equality of the end of the name with a text that only names of warped distances end with"""
        if x.op == 'not' or x.op not in ('streq', 'eq0'):
            return False
        sub = list(subterms(x))
        ls = [lit(t) for t in sub if lit(t)]
        if not any(content is t or t is names[0] for t in sub) or len(set(ls)) != 1:
            return False
        l = ls[0]
        if not l.endswith('dtw'):
            return False
        # compared from the right place
        own = mk('strlen', content)
        offs = [mkpoly({(own,): 1, (): -len(l)})] + [mkpoly({(own,): 1, (mk('strlen', t),): -1}) for t in sub if lit(t)]
        return any(o is t for o in offs for t in sub)
    for i in calls:
        a = s.info[i.id]['args']
        fs = s.facts(i.blk)
        ok = any(tests_suffix(x) for w in ways(s, i.blk) for x in w) and all(any(tests_suffix(x) for x in expand(w)) for w in ways(s, i.blk))
        ctx.expect(ok, 'public:suffix', i.where, 'an alignment is computed for a distance that does not warp')
        st = api.state_before(s, i)
        sret = s.argByName.get('sret')
        n = size_of(s, s.peek(st, a[3], 'obj'))
        ctx.expect(n is const(0), 'public:empty', i.where, 'no alignment is asked for: the one handed in is not empty')
        ctx.expect(a[2] is INF, 'public:bound', i.where, 'the alignment is computed under a bound')
        # handed out as it is
        for r in rets(f):
            if r.blk in f.reachable(i.blk) or r.blk == i.blk:
                v = s.peek(s.outstate[r.blk], sret, 'obj')
                w = s.peek(s.outstate[i.blk], a[3], 'obj')
                same = a[3] is sret or v is w
                later = [k for k in f.instrs() if k.is_call and k.id != i.id and s.info.get(k.id, {}).get('call') is not None and
                         s.info[k.id]['call'].this in (sret, a[3]) and (k.blk in f.reachable(i.blk)) and k.short not in
                         ('std::vector::~vector', 'std::vector::vector') and not (k.dem or '').endswith('const')]
                ctx.expect(same and not later, 'public:result', r.where, 'the alignment handed out is not the one computed')
    ctx.count('alignments asked for', len(calls))
    only_own_exceptions(ctx, s, 'public')


def expand(fs):
    out = []
    for x in fs:
        if x.op == 'and':
            out += expand(list(x.args))
        else:
            out.append(x)
    return out
