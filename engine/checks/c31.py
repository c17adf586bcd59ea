"""Distance values follow the definition of their distance.

Every distance computation is flattened with the members of its metric.  The
values it accumulates and returns are read as expressions over the real
numbers and brought into a normal form (polynomials, fractions, roots, absolute
values, maxima), which is compared with the definition of the distance.  Plain
form: all pairs of points with equal positions enter the totals once, the
totals start and grow as defined, and what is returned is the defined function
of the totals.  Warped form: the first cell, the first row, the first column and
every other cell of the table inside the band are computed, each from the totals of a
neighbour in the band whose cost is smallest, extended by its own pair of
points, and its cost is the defined function of its totals; nothing outside the
band is computed; the answer is the cost of the last cell.  The band is the
defined fraction of the longer length.
"""
import itertools
import re

from gx import api
from gx.lib import *
from gx.loops import loops_of, ranges
from gx.walk import walks, iterations, header_phis, constants
from gx.kbest import INF
from gx.real import Real, real, atom, lift, absolute, root, extreme, known, given
from gx.sym import minmax
from checks.c15 import DIST, LOW
from checks.c16 import points

RULE = 'normal form over the reals of the totals and results, compared with the defining formula'
BAND = 'genex::calculateWarpingBandSize'
NINF = mk('fconst', '-inf')


class Metric:
    def __init__(self, first, grow, plain, warped):
        self.first, self.grow, self.plain, self.warped = first, grow, plain, warped


def sq(x):
    return x * x


METRICS = {
    'Euclidean': Metric([0], lambda t, x, y: [t[0] + sq(x - y)], lambda t, n: root(t[0] / n), lambda t, n: root(t[0]) / (2 * n)),
    'Manhattan': Metric([0], lambda t, x, y: [t[0] + absolute(x - y)], lambda t, n: t[0] / n, lambda t, n: t[0] / (2 * n)),
    'Chebyshev': Metric([None], lambda t, x, y: [extreme('max', [t[0], absolute(x - y)])], lambda t, n: t[0], lambda t, n: t[0]),
    'Cosine': Metric([0, 0, 0], lambda t, x, y: [t[0] + sq(x), t[1] + sq(y), t[2] + x * y],
                     lambda t, n: t[2] / (root(t[0]) * root(t[1])), lambda t, n: t[2] / (root(t[0]) * root(t[1]))),
    'Sorensen': Metric([0, 0], lambda t, x, y: [t[0] + absolute(x - y), t[1] + absolute(x + y)],
                       lambda t, n: t[0] / t[1], lambda t, n: t[0] / t[1]),
}


def run(ctx):
    p = ctx.prog(plan([DIST], [DIST, LOW, r'^genex::TimeSeries::(?!getLength|operator\[\])', r'^%s\(' % BAND]))
    roles = ts_roles(ctx)
    seen = set()
    for f in sorted(p.funcs.values(), key=lambda f: f.dem):
        m = re.search(r'(pairwise|warped)Distance<genex::(\w+)', f.dem)
        if not re.search(DIST, f.dem) or not m:
            continue
        if m.group(2) not in METRICS:
            ctx.count('distances without a stated definition')
            continue
        seen.add(m.groups())
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        cls = Plain if m.group(1) == 'pairwise' else Warped
        cls(ctx, f, s, roles, METRICS[m.group(2)], m.group(0).split('<')[0] + ':' + m.group(2)).run()
        ctx.count('%s distances' % ('plain' if cls is Plain else 'warped'))
    ctx.require(len(seen) == 2 * len(METRICS), 'a distance with a stated definition was not found')
    band(ctx)


class Base:
    def __init__(self, ctx, f, s, roles, metric, key):
        self.ctx, self.f, self.s, self.roles, self.metric, self.key = ctx, f, s, roles, metric, key
        self.ab = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] not in ('this', 'sret')][:2]
        self.len = [mk('ld', roles.at(a, 'getLength'), 'i32', ()) for a in self.ab]
        self.data = [mk('ld', roles.at(a, 'getData'), 'ptr', ()) for a in self.ab]
        self.start = [mk('ld', roles.at(a, 'getStart'), 'i32', ()) for a in self.ab]
        self.P = Prover(s)

    def point(self, t):
        """('a' or 'b', position) if t is a point of a series"""
        p = place(t)
        if p is None:
            return None
        r, o = ptr_parts(p)
        if place(r) is None:
            return None
        for k in (0, 1):
            if place(r) is place(self.data[k]):
                o = padd(o, {(self.start[k],): 8}, -1)
                if all(c % 8 == 0 for c in o.values()):
                    return 'ab'[k], mkpoly({m: c // 8 for m, c in o.items() if c})
        return None

    def first(self):
        return [extreme('max', []) if v is None else lift(v) for v in self.metric.first]

    pending = None

    def fail(self, what, where, msg):
        self.check(False, what, where, msg)

    def check(self, cond, what, where, msg):
        if self.pending is not None:
            self.pending.append((cond, what, where, msg))
            return cond
        return self.ctx.expect(cond, '%s:%s' % (self.key, what), where, msg)


class Plain(Base):
    def leaf(self, t):
        if t in self.accs:
            return atom(('acc', self.accs.index(t)))
        if t in self.len:
            return atom(('count', 'n'))
        pt = self.point(t)
        if pt:
            return atom(('x' if pt[0] == 'a' else 'y', pt[1].uid))
        return None

    def run(self):
        ctx, f, s = self.ctx, self.f, self.s
        pts = points(s, self.roles)
        hs = {loops_of(f, i.blk)[-1] for i, a, o, st in pts if loops_of(f, i.blk)}
        if not self.check(len(hs) == 1 and all(loops_of(f, i.blk) for i, *_ in pts), 'loop', f.where,
                          'the points are not all read by one loop'):
            return
        h = hs.pop()
        rg = [r for r in ranges(s, h)]
        full = [r for r in rg if r.step == 1 and r.lo is const(0) and r.hi in self.len or
                r.step == -1 and r.lo is const(-1) and s.minc[r.atom]['entry'] in
                [mkpoly(padd(poly(x), {(): -1})) for x in self.len]]
        if not self.check(len(full) == 1, 'range', f.where, 'the loop over the points does not cover all positions'):
            return
        i = full[0].atom
        x, y = atom(('x', i.uid)), atom(('y', i.uid))
        its = iterations(s, h)
        names = [a for a in header_phis(s, h) if a is not i and any(v is not a for v in s.minc[a].values())]
        self.accs = []
        names = [a for a in names if any(w.val(s.minc[a][b]) is not a for w, b in its)]
        M = self.metric
        self.accs = names
        good = None
        upd = []
        for w, b in its:
            g = given([w.res(z) for z in w.facts], self.leaf)
            with known(g):
                upd.append((g, [real(w.val(s.minc[a][b]), self.leaf) for a in names]))
        for perm in itertools.permutations(range(len(names)), len(M.first)):
            t = [atom(('acc', k)) for k in perm]
            for g, u in upd:
                with known(g):
                    if not all(u[k].same(e) for k, e in zip(perm, M.grow(t, x, y))):
                        break
            else:
                good = perm
                break
        if not self.check(good is not None and its, 'totals', f.blocks[h].term.where,
                          'a pair of points does not enter the totals as the distance is defined'):
            return
        for k, v in zip(good, self.first()):
            e = s.minc[names[k]]['entry']
            ok = real(e, self.leaf).same(v) or (v.same(extreme('max', [])) and real(e, self.leaf).same(lift(0)))
            self.check(ok, 'start', f.where, 'a total does not start as the distance is defined')
        t = [atom(('acc', k)) for k in good]
        n = atom(('count', 'n'))
        want = M.plain(t, n)
        m0 = constants(s)
        c = 0
        for w, b, nx in walks(s, h, m0=m0):
            if f.blocks[b].term.op != 'ret':
                continue
            v = w.res(s.val(f.blocks[b].term.ops[0]))
            if v is INF:
                continue
            g = given([w.res(z) for z in w.facts], self.leaf)
            with known(g):
                r, after = real(v, self.leaf), M.plain(M.grow(t, x, y), n)
            done = len(set(w.path) & f.loops[h]) <= 1 or not any(self.point(u) for u in subterms(v))
            c += 1
            self.check(r.same(want) or not done and r.same(after), 'result', f.blocks[b].term.where,
                       'what is returned is not the defined function of the totals')
        self.check(c > 0, 'result', f.where, 'no value is returned after all points')
        # nothing is answered before the points have been looked at
        for w, b, nx in walks(s, 0, stop=lambda b, n: n == h, m0=None):
            if nx is None and f.blocks[b].term.op == 'ret':
                self.fail('early', f.blocks[b].term.where, 'a value is returned without looking at the points')


class Warped(Base):
    def cell(self, p):
        """(matrix, row, column) of an address"""
        if p is not None and p.op == 'elem' and p.args[0].op == 'elem':
            return p.args[0].args[0], p.args[0].args[1], p.args[1]
        return None

    def leaf(self, t):
        if t in self.len:
            return atom(('count', self.len.index(t)))
        pt = self.point(t)
        if pt:
            return atom((pt[0], pt[1].uid))
        p = place(t)
        if p is not None:
            c = self.cell(p)
            if c and c[0] is self.K:
                return atom(('K', c[1].uid, c[2].uid, 0))
            r, o = ptr_parts(p)
            c = self.cell(place(r)) if place(r) is not None else None
            if c and c[0] is self.K and not set(o) - {()}:
                return atom(('K', c[1].uid, c[2].uid, o.get((), 0)))
        return None

    def run(self):
        ctx, f, s = self.ctx, self.f, self.s
        m, n = self.len
        last = tuple(mkpoly(padd(poly(x), {(): -1})) for x in self.len)
        self.K = None
        self.L = extreme('max', [atom(('count', 0)), atom(('count', 1))])
        # ------------------------------------------------------------ results
        fin = []
        for r in rets(f):
            for (v,), fs in split(s, [s.val(r.ops[0])], s.facts(r.blk), limit=4000):
                fin.append((v, fs, r))
        mats = {c[0] for v, _, _ in fin for c in [self.cell(place(v))] if c}
        if not self.check(len(mats) == 1, 'result', f.where, 'the answer is not taken from one table of costs'):
            return
        self.M = mats.pop()
        sts = []
        for i in f.instrs():
            if i.op == 'store':
                c = self.cell(s.info[i.id]['ptr'])
                if c:
                    sts.append((i, c))
        others = {c[0] for _, c in sts} - {self.M}
        if not self.check(len(others) == 1, 'totals', f.where, 'the table of totals was not found'):
            return
        self.K = others.pop()
        # the band
        calls = [i for i in f.instrs() if i.is_call and i.short == BAND]
        ctx.require(len(calls) == 1, '%s: the band is not asked for once' % self.key)
        self.r = s.vals[calls[0].id]
        arg = s.info[calls[0].id]['args'][0]
        self.check(arg is minmax('max', m, n), 'band', calls[0].where, 'the band is not that of the longer series')
        self.base = [le0({(self.r,): -1}), le0({(m,): -1, (): 1}), le0({(n,): -1, (): 1})]
        ctx.assume('the band is not negative (it is the rounded down product of a length and a ratio between 0 and 1)')
        self.perms = list(itertools.permutations(range(len(self.metric.first))))
        self.offs = None
        # ------------------------------------------------------------ fast path and result
        short = 0
        for w, b, nx in walks(s, 0, stop=lambda b, n: n in f.loops, limit=20000):
            t = f.blocks[b].term
            if nx is not None or t.op != 'ret':
                continue
            v = w.res(s.val(t.ops[0]))
            short += 1
            fs = w.facts + self.base
            one = self.P.le(m, const(1), fs) and self.P.le(n, const(1), fs)
            self.check(one, 'short', t.where, 'an answer is given without a table for series longer than one point')
            with known(given([w.res(z) for z in w.facts], self.leaf)):
                g = self.metric.grow(self.first(), atom(('a', const(0).uid)), atom(('b', const(0).uid)))
                ok = real(v, self.leaf).same(self.metric.warped(g, self.L))
            self.check(ok, 'short', t.where, 'the distance of two single points is not as defined')
        for v, fs, r in fin:
            c = self.cell(place(v))
            if c:
                self.check(c[0] is self.M and c[1:] == last, 'result', r.where, 'the answer is not the cost of the last pair of points')
            elif v is not INF and not short:
                self.fail('result', r.where, 'an answer is not taken from the table of costs')
        # ------------------------------------------------------------ cells
        kinds = {}
        flat = [(i, c) for i, c in sts if not loops_of(f, i.blk)]
        ms = [(i, c) for i, c in flat if c[0] is self.M]
        if self.check(len(ms) >= 1 and all(c[1] is const(0) and c[2] is const(0) for i, c in flat), 'first', f.where,
                      'the cost of the first pair of points is not computed'):
            i, c = ms[-1]
            for w, b, nx in walks(s, 0, stop=lambda b, n: n in f.loops, limit=20000):
                ins = list(w.instrs())
                if any(j is i for j in ins):
                    self.totals_and_cost(ins, w, c, 'first', None, i.where)
            kinds['first'] = 1
        hs = {loops_of(f, i.blk)[-1] for i, c in sts if loops_of(f, i.blk)}
        for h in sorted(hs):
            for kind in self.loop(h):
                kinds[kind] = kinds.get(kind, 0) + 1
        for k, msg in (('column', 'the first column of the table is not computed'), ('row', 'the first row of the table is not computed'),
                       ('inner', 'the table is not filled')):
            self.check(kinds.get(k) == 1, k, f.where, msg)

    def totals_and_cost(self, ins, w, c, what, prev, where):
        """the last totals and cost stored for the cell are as defined, given the cell extended"""
        s, res = self.s, w.res
        with known(given([res(x) for x in w.facts], self.leaf)):
            self.totals(ins, res, c, what, prev, where)

    def totals(self, ins, res, c, what, prev, where):
        s = self.s
        cost, comp, ptr, heap = None, {}, None, {}
        for j in ins:
            if j.op != 'store':
                continue
            q = res(s.info[j.id]['ptr'])
            v = s.info[j.id]['val']
            d = self.cell(q)
            if d == (self.M,) + c[1:]:
                cost = v
            elif d == (self.K,) + c[1:]:
                if v.op == 'new' or j.get('oty') == 'ptr':
                    ptr, comp = res(v), None
                else:
                    comp, ptr = {0: v}, None
            elif d:
                return self.fail(what, j.where, 'another cell than the one computed is changed')
            else:
                r, o = ptr_parts(q)
                if r.op == 'new' and not set(o) - {()}:
                    heap.setdefault(r, {})[o.get((), 0)] = v
        if ptr is not None:
            comp = heap.get(ptr)
        if not self.check(cost is not None and comp, what, where, 'a cell of the table is left without totals or cost'):
            return
        a, b = atom(('a', c[1].uid)), atom(('b', c[2].uid))
        offs = sorted(comp)
        if self.offs is None:
            self.offs = offs
        if not self.check(offs == self.offs and len(offs) == len(self.metric.first), what, where, 'a cell has other totals than the rest'):
            return
        got = {o: real(res(comp[o]), self.leaf) for o in offs}
        gc = real(res(cost), self.leaf)
        ok = []
        for pm in self.perms:
            at = {k: offs[pm[k]] for k in range(len(pm))}
            t = self.first() if prev is None else [atom(('K', prev[0].uid, prev[1].uid, at[k])) for k in range(len(pm))]
            g = self.metric.grow(t, a, b)
            if all(got[at[k]].same(g[k]) for k in at) and gc.same(self.metric.warped(g, self.L)):
                ok.append(pm)
        if self.check(bool(ok), what, where, 'the totals or the cost of a cell are not its neighbour extended by its own pair of points as defined'):
            self.perms = ok

    def loop(self, h):
        f, s = self.f, self.s
        its = iterations(s, h, 20000)
        kinds = set()
        skips = []
        m, n = self.len
        for w, b in its:
            cs = []
            for j in w.instrs():
                if j.op == 'store':
                    c = self.cell(w.res(s.info[j.id]['ptr']))
                    if c and c[0] is self.M:
                        cs.append((j, c))
            if not cs:
                skips.append((w, b))
                continue
            j, c = cs[-1]
            _, row, col = c
            kind = 'column' if col is const(0) else 'row' if row is const(0) else 'inner'
            kinds.add((kind, row, col))
            fs = self.P.directed([w.res(x) for x in w.facts] + self.base + self.rng(h))
            where = j.where
            self.pending = []
            used = self.extended(w, c)
            if kind == 'column':
                prev = (mkpoly(padd(poly(row), {(): -1})), col)
                self.check(self.P.le(row, self.r, fs), 'band', where, 'a cell outside the band is computed')
            elif kind == 'row':
                prev = (row, mkpoly(padd(poly(col), {(): -1})))
                self.check(self.P.le(col, self.r, fs), 'band', where, 'a cell outside the band is computed')
            else:
                up, left = (mkpoly(padd(poly(x), {(): -1})) for x in (row, col))
                nb = {'D': (up, left), 'L': (row, left), 'U': (up, col)}
                prev = used
                who = [k for k, v in nb.items() if v == used]
                if self.check(len(who) == 1, 'inner', where, 'a cell does not extend one of its three neighbours'):
                    self.choice(w, who[0], nb, row, col, fs, where)
                    self.ctx.count('ways to choose a neighbour')
                self.check(self.P.le(mkpoly(padd(poly(row), {(self.r,): -1})), col, fs) and
                           self.P.le(col, mkpoly(padd(poly(row), {(self.r,): 1})), fs), 'band', where, 'a cell outside the band is computed')
            if prev is not None:
                self.totals_and_cost(list(w.instrs()), w, c, kind, prev, where)
            res, self.pending = self.pending, None
            if not all(x[0] for x in res) and self.P.absurd(fs):
                continue        # no such iteration
            for x in res:
                self.check(*x)
            self.ctx.count('ways to compute a cell')
        if not kinds:
            return []
        if not self.check(len(kinds) == 1, 'loop', f.blocks[h].term.where, 'a loop computes cells of different kinds'):
            return []
        kind, row, col = kinds.pop()
        where = f.blocks[h].term.where
        m, n = self.len
        if kind in ('column', 'row'):
            i, lim = (row, m) if kind == 'column' else (col, n)
            self.check(not skips, kind, where, 'a cell of the first %s may be left out' % kind)
            good = [r for r in ranges(s, h) if r.atom is i and r.lo is const(1) and r.step == 1]
            end = minmax('min', lim, mkpoly({(self.r,): 1, (): 1}))
            ok = good and (any(not r.early and self.P.le(end, r.hi, self.base) for r in good) or self.leaving(h, i, end))
            self.check(ok, kind, where, 'the first %s is not computed up to the edge of the band' % kind)
            return [kind]
        outer = [g for g in loops_of(f, h) if g != h]
        rows = [r for g in outer for r in ranges(s, g) if r.atom is row and r.lo is const(1) and r.hi is m and r.step == 1]
        self.check(len(outer) == 1 and len(rows) == 1, 'rows', where, 'not every row of the table is computed')
        lo, hi = mkpoly(padd(poly(row), {(self.r,): -1})), mkpoly(padd(poly(row), {(self.r,): 1, (): 1}))
        first = minmax('max', const(1), lo)
        end = minmax('min', n, hi)
        fs = self.base + [le0({(row,): -1, (): 1}), le0(padd({(row,): 1, (): 1}, poly(m), -1))]
        cols = [r for r in ranges(s, h) if r.atom is col and r.step == 1]
        ok = cols and self.P.le(cols[0].lo, first, fs) and \
            (any(not r.early and self.P.le(end, r.hi, fs) for r in cols) or self.leaving(h, col, end))
        self.check(ok, 'columns', where, 'not every cell of a row inside the band is computed')
        for w, b in skips:
            g = [w.res(x) for x in w.facts] + self.base + self.rng(h)
            out = self.P.le(col, const(0), g) or self.P.lt(col, lo, g) or self.P.le(hi, col, g) or self.P.absurd(g)
            self.check(out, 'columns', f.blocks[b].term.where, 'a cell inside the band may be left out')
        return [kind]

    def rng(self, h):
        """what the bounds of the loop say about its counter"""
        s, f = self.s, self.f
        out = []
        for g in loops_of(f, h):
            for r in ranges(s, g):
                if r.step == 1:
                    out += [le0(padd(poly(r.lo), {(r.atom,): -1})), le0(padd({(r.atom,): 1, (): 1}, poly(r.hi), -1))]
        return out

    def leaving(self, h, i, end):
        from gx.walk import leaves
        ls = leaves(self.s, h)
        return bool(ls) and all(self.P.le(end, i, [w.res(x) for x in w.facts] + self.base) for w, b, n in ls)

    def extended(self, w, c):
        """the cell whose totals enter the cost stored for cell c"""
        s = self.s
        v = None
        for j in w.instrs():
            if j.op == 'store' and self.cell(w.res(s.info[j.id]['ptr'])) == (self.M,) + c[1:]:
                v = w.res(s.info[j.id]['val'])
        for ts in ([v], [w.res(x) for x in w.facts]):
            us = {}
            for t in (u for x in ts for u in subterms(x)):
                p = place(t)
                if p is None:
                    continue
                d = self.cell(p)
                if d is None:
                    r, o = ptr_parts(p)
                    d = self.cell(place(r)) if place(r) is not None else None
                if d and d[0] is self.K:
                    us[d[1:]] = 1
            if us:
                break
        return next(iter(us)) if len(us) == 1 else None

    def choice(self, w, who, nb, row, col, fs, where):
        P, r = self.P, self.r

        def outside(k):
            if k == 'L':
                return P.lt(nb['L'][1], mkpoly(padd(poly(row), {(r,): -1})), fs)
            if k == 'U':
                return P.lt(mkpoly(padd(poly(nb['U'][0]), {(r,): 1})), col, fs)
            return False

        def inside(k):
            if k == 'L':
                return P.le(mkpoly(padd(poly(row), {(r,): -1})), nb['L'][1], fs)
            if k == 'U':
                return P.le(col, mkpoly(padd(poly(nb['U'][0]), {(r,): 1})), fs)
            return True
        le, lt = set(), set()
        toks = set()

        def tok(t):
            if t is INF:
                return 'inf'
            c = self.cell(place(t)) if place(t) is not None else None
            if c and c[0] is self.M:
                for k, v in nb.items():
                    if v == c[1:]:
                        return k
            if t.op == 'fmin':
                return ('min', frozenset(tok(x) for x in t.args))
            return ('?', t.uid)

        def note(t):
            if t not in toks:
                toks.add(t)
                if isinstance(t, tuple) and t[0] == 'min':
                    for x in t[1]:
                        note(x)
                        le.add((t, x))
        for x in (w.res(x) for x in w.facts):
            pos = True
            if x.op == 'not':
                x, pos = x.args[0], False
            if x.op != 'fcmp':
                continue
            q, a, b = x.args[0][1:], tok(x.args[1]), tok(x.args[2])
            note(a)
            note(b)
            if not pos:
                q = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}.get(q)
            if q in ('gt', 'ge'):
                a, b, q = b, a, 'l' + q[1]
            if q in ('le', 'lt', 'eq'):
                le.add((a, b))
            if q == 'lt':
                lt.add((a, b))
            if q == 'eq':
                le.add((b, a))
        for k in ('D', 'L', 'U'):
            note(k)
        note('inf')
        for t in toks:
            le.add((t, t))
            le.add((t, 'inf'))
        while True:
            new = {(a, d) for a, b in le for c, d in le if b == c}
            for t in toks:
                if isinstance(t, tuple) and t[0] == 'min':
                    new |= {(z, t) for z in toks if all((z, x) in le for x in t[1])}
            if new <= le:
                break
            le |= new
        if any((b, a) in le for a, b in lt):
            return          # cannot happen
        self.check(inside(who), 'choice', where, 'a cell extends a neighbour outside the band')
        for k in nb:
            if k != who:
                self.check((who, k) in le or outside(k), 'choice', where, 'a cell may extend a neighbour that is not the cheapest one in the band')


def band(ctx):
    """the number of positions that may be skipped is the fraction of the length, less than the length"""
    p = ctx.prog(plan([r'^%s\(' % BAND]))
    f = ctx.one(p, BAND)
    s = ctx.sym(f, p, nogate=True)
    n = s.argT[0]
    top = mkpoly({(n,): 1, (): -1})

    def part(x):
        if x.op not in ('fptosi', 'floor'):
            return False
        while x.op in ('fptosi', 'floor'):
            x = x.args[0]
        return x.op == 'fmul' and any(y.op == 'sitofp' and y.args[0] is n for y in x.args) and \
            any(place(y) is not None and place(y).op == 'global' for y in x.args)
    P = Prover(s)
    for r in rets(f):
        for (v,), fs in split(s, [s.val(r.ops[0])], s.facts(r.blk)):
            if v.op == 'min' and len(v.args) == 2 and top in v.args:
                ok = any(part(x) for x in v.args if x is not top)
            elif part(v):
                ok = P.le(v, top, fs)
            else:
                ok = v is top and any(part(x) and P.le(top, x, fs) for c in fs for x in subterms(c))
            ctx.expect(ok, 'band:size', r.where, 'the band is not the set fraction of the length, rounded down and less than the length')
    ctx.count('band computations', len(rets(f)))
