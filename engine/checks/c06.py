"""Normalising rescales every value once with the global minimum and maximum.

The normalising function is flattened.  Its passes are the loop nests over
exactly the series of the dataset and exactly the positions of each series,
without early exit.  The pair handed out is (smallest, largest): two running values
that start as plus and minus infinity and in each iteration of one such pass
become the smaller (larger) of themselves and the value of that cell,
decided by comparisons on every path.  On every way to return after that pass,
the values have been found to exist, and exactly one further pass has stored
(x - smallest) / (largest - smallest) into each cell, x being the value of the
same cell, or, behind the test that the two are equal, zero (or nothing
when they are zero already).  Nothing else in the dataset is written apart from
a flag, and a refusal comes before any write.
"""
import re

from gx import api
from gx.lib import *
from gx.loops import ranges, iter_skips, again, once, loops_of
from gx.walk import walks, iterations, header_phis
from gx.sym import fcmp, neg_

RULE = 'coverage and exactly-once of each pass over the loop nest; running extremes decided by comparisons on every path'


def run(ctx):
    p = ctx.prog(['index'] + plan([r'^%s::(normalize|isLoaded)\(' % SET]))
    f = ctx.one(p, SET + '::normalize')
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    Norm(ctx, p, f, s).run()


class Norm:
    def __init__(self, ctx, p, f, s):
        self.ctx, self.f, self.s = ctx, f, s
        from checks.c21 import null_field
        roles = set_roles(ctx)
        data = null_field(ctx, p, SET + '::isLoaded')
        self.this = this = s.argByName['this']
        self.count = mk('ld', roles.at(this, 'getItemCount'), 'i32', ())
        self.width = mk('ld', roles.at(this, 'getMaxLength'), 'i32', ())
        self.base = mk('ld', ptr_add(this, {(): data} if data else {}), 'ptr', ())
        self.lens = roles.at(this, 'getItemLength')

    def cell(self, q):
        """(row, column) of an address in the storage of the values"""
        r, o = ptr_parts(q)
        if r is not self.base:
            return None
        row, col = {}, {}
        for m, c in o.items():
            if not c:
                continue
            if c % 8:
                return None
            if self.width in m:
                k = list(m)
                k.remove(self.width)
                row[tuple(k)] = c // 8
            else:
                col[m] = c // 8
        return mkpoly(row), mkpoly(col)

    def span(self, h, t):
        """values the term t takes in loop h: (first, one past the last) or None"""
        for r in ranges(self.s, h):
            d = {m: c for m, c in padd(poly(t), {(r.atom,): 1}, -1).items() if c}
            if set(d) <= {()} and abs(r.step) == 1 and not r.early:
                k = d.get((), 0)
                return tuple(mkpoly(padd(poly(x), {(): k})) for x in (r.lo, r.hi))
        return None

    def nest(self, row, col, blk, what):
        """the two loops over exactly all cells; -> (outer, inner) or None"""
        ctx, f, s = self.ctx, self.f, self.s
        ls = loops_of(f, blk)
        where = f.blocks[blk].term.where
        if not ctx.expect(len(ls) == 2, what + ':nest', where, 'values are not visited by a loop over series and positions'):
            return None
        ln = mk('ld', mk('elem', self.lens, row), 'i32', ())
        ctx.expect(self.span(ls[0], row) == (const(0), self.count), what + ':rows', where, 'not every series is visited')
        ctx.expect(self.span(ls[1], col) == (const(0), ln), what + ':columns', where, 'not exactly the values of a series are visited')
        ctx.expect(not iter_skips(s, ls[0], [f.blocks[ls[1]].ins[0]]), what + ':rows', where, 'a series may be left out')
        ctx.count('passes')
        return ls[0], ls[1]

    def run(self):
        ctx, f, s = self.ctx, self.f, self.s
        rs = rets(f)
        ctx.require(rs, 'normalising never returns')
        ext = set()
        for r in rs:
            v = s.val(r.ops[0]) if r.ops else None
            pr = None
            if v is not None and v.op == 'agg':
                d = dict(v.args[0])
                pr = (d.get(0), d.get(1))
            ctx.require(pr is not None and all(x is not None for x in pr), 'the extremes are no longer returned as a pair')
            ext.add(pr)
        if not ctx.expect(len(ext) == 1, 'pair', rs[0].where, 'different pairs are returned'):
            return
        lo, hi = ext.pop()
        n1, n2 = self.extreme(lo, 'min', rs[0]), self.extreme(hi, 'max', rs[0])
        if n1 is None or n2 is None:
            return
        self.lo_, self.hi_ = lo, hi
        self.writes()
        self.passes(n1, n2)
        only_own_exceptions(ctx, s, 'normalising')

    # ------------------------------------------------------------ extremes
    def extreme(self, v, kind, r):
        """v runs over all values; -> header of the pass"""
        ctx, f, s = self.ctx, self.f, self.s
        names = {'min': 'minimum', 'max': 'maximum'}
        if not ctx.expect(v.op == 'phi' and v in s.minc and v.args[1] in f.loops and 'entry' in s.minc[v], kind + ':value', r.where,
                          'the %s returned is not the result of a pass over the values' % names[kind]):
            return None
        h = v.args[1]
        e = s.minc[v]['entry']
        start = e.op == 'fconst' and (float(e.args[0]) >= 1.79e308 if kind == 'min' else float(e.args[0]) <= -1.79e308)
        ctx.expect(start, kind + ':start', f.where, 'the search for the %s starts with a value that may not belong to the dataset' % names[kind])
        inner = {x for b, x in s.minc[v].items() if b != 'entry'}
        if not ctx.expect(len(inner) == 1, kind + ':carried', f.where, 'the %s of a series is not carried on' % names[kind]):
            return None
        x = inner.pop()
        ok = x.op == 'phi' and x in s.minc and x.args[1] in f.loops[h] and x.args[1] != h and s.minc[x].get('entry') is v
        if not ctx.expect(ok, kind + ':carried', f.where, 'the %s of a series is not carried on' % names[kind]):
            return None
        g = x.args[1]
        cells = {self.cell(s.info[i.id]['ptr']) for b in f.loops[g] for i in f.blocks[b].ins if i.op == 'load'} - {None}
        if not ctx.expect(len(cells) == 1, kind + ':cell', f.where, 'one iteration does not look at exactly one value'):
            return None
        row, col = cells.pop()
        nest = self.nest(row, col, g, kind)
        if nest is None:
            return None
        ctx.expect(nest == (h, g), kind + ':nest', f.where, 'values are not visited by a loop over series and positions')
        for w, b in iterations(s, g):
            n = w.val(s.minc[x][b])
            ctx.expect(self.chosen(w, x, n, row, col, kind), kind + ':choice', f.blocks[b].term.where,
                       'a value is not compared with the %s so far, or the wrong one is kept' % names[kind])
            ctx.count('ways through the search for the extremes')
        return h

    def val(self, t, row, col):
        return t.op == 'ld' and t.args[1] == 'double' and self.cell(t.args[0]) == (row, col)

    def chosen(self, w, x, n, row, col, kind):
        if n.op == 'f' + kind:
            a, b = n.args
            return x in (a, b) and self.val(b if a is x else a, row, col)
        # which comparisons are known
        le, lt = [], []
        for t in w.facts:
            pos = t.op != 'not'
            y = t if pos else t.args[0]
            if y.op != 'fcmp':
                continue
            r, a, b = y.args[0][1:], y.args[1], y.args[2]
            if not pos:
                r = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}.get(r)
            if r in ('gt', 'ge'):
                a, b = b, a
                r = 'l'
            if r in ('lt', 'le', 'l'):
                le.append((a, b))
        if n is x:
            # kept: the value is not beyond it
            return any((a is x and self.val(b, row, col)) if kind == 'min' else (b is x and self.val(a, row, col)) for a, b in le)
        if self.val(n, row, col):
            return any((b is x and self.val(a, row, col)) if kind == 'min' else (a is x and self.val(b, row, col)) for a, b in le)
        return False

    # ------------------------------------------------------------ writes
    def writes(self):
        ctx, f, s = self.ctx, self.f, self.s
        self.stores = {}
        for i in f.instrs():
            if i.op == 'store':
                q = s.info[i.id]['ptr']
                r, _ = ptr_parts(q)
                if r.op in ('alloca', 'new'):
                    continue
                c = self.cell(q)
                if c is not None:
                    self.stores[i.id] = (i, c)
                    continue
                ok = r is self.this and s.info[i.id]['val'] is const(1) and i.ops and s.info[i.id].get('ty', 'i8') in ('i8', 'i1')
                ctx.expect(ok, 'writes', i.where, 'normalising changes something other than the values: %s' % str(q)[:60])
            elif i.is_call and (i.dem or '').startswith('llvm.mem') and s.info.get(i.id, {}).get('args'):
                if ptr_parts(s.info[i.id]['args'][0])[0].op not in ('alloca', 'new'):
                    ctx.bad('writes', i.where, 'normalising writes values in an unknown way')
        ctx.require(self.stores, 'normalising writes no values')
        self.kind = {}
        by = {}
        for i, c in self.stores.values():
            nest = self.nest(c[0], c[1], i.blk, 'write')
            if nest is not None:
                by.setdefault(nest, []).append((i, c))
        lo, hi = self.lo_, self.hi_
        for (h, g), l in by.items():
            ctx.expect(once(s, g, [i for i, c in l]), 'once', l[0][0].where, 'a value may be left out or rescaled twice')
            kinds = set()
            for w, b in iterations(s, g):
                for i, (row, col) in l:
                    if i.blk not in w.set:
                        continue
                    v = w.val(s.info[i.id]['val'])
                    k = 'scaled' if self.scaled(v, row, col) else 'zero' if v.op == 'fconst' and float(v.args[0]) == 0 else None
                    ctx.expect(k is not None, 'formula', i.where, 'a value is not replaced by its rescaled value')
                    # decided in the loop itself
                    if k == 'scaled' and any(self.equal(x, lo, hi) is False for x in w.facts) or \
                            k == 'zero' and any(self.equal(x, lo, hi) is True for x in w.facts):
                        k = 'decided'
                    kinds.add(k)
            ctx.expect(len(kinds) == 1, 'formula', l[0][0].where, 'values of one dataset are treated differently')
            self.kind[h] = min(kinds, key=str) if kinds else None

    def scaled(self, v, row, col):
        lo, hi = self.lo_, self.hi_

        def diff(t):
            return t.op == 'fsub' and t.args[0] is hi and t.args[1] is lo
        if v.op == 'fdiv' and diff(v.args[1]):
            a = v.args[0]
        elif v.op == 'fmul':
            for a, b in (v.args, v.args[::-1]):
                if b.op == 'fdiv' and diff(b.args[1]) and b.args[0].op == 'fconst' and float(b.args[0].args[0]) == 1:
                    break
            else:
                return False
        else:
            return False
        return a.op == 'fsub' and a.args[1] is lo and self.val(a.args[0], row, col)

    # ------------------------------------------------------------ passes
    def passes(self, n1, n2):
        ctx, f, s = self.ctx, self.f, self.s
        lo, hi = self.lo_, self.hi_
        for w, b, n in walks(s, 0):
            t = f.blocks[b].term
            if t.op != 'ret':
                continue
            ctx.count('ways to return')
            ctx.expect(n1 in w.set and n2 in w.set, 'order', t.where, 'normalising may end without looking at the values')
            some = any(self.rel(x, lo, hi) for x in w.facts)
            ctx.expect(some, 'refused', t.where, 'a dataset without values is not refused')
            ks = [self.kind[h] for h in w.path if h in self.kind]
            pos = [w.path.index(h) for h in w.path if h in self.kind]
            ctx.expect(all(k > w.path.index(n) for k in pos for n in (n1, n2) if n in w.set), 'order', t.where, 'values are rescaled before the extremes are known')
            same = any(self.equal(x, lo, hi) is True for x in w.facts)
            differ = any(self.equal(x, lo, hi) is False for x in w.facts)
            if ks == ['scaled']:
                ctx.expect(differ, 'division', t.where, 'values are divided by a difference that may be zero')
            elif ks == ['zero']:
                ctx.expect(same, 'constant', t.where, 'values are set to zero although they differ')
            elif ks == ['decided']:
                pass
            elif not ks:
                z = any(self.iszero(x) for x in w.facts)
                ctx.expect(same and z, 'unscaled', t.where, 'normalising may end without rescaling the values')
            else:
                ctx.bad('twice', t.where, 'values are rescaled more than once')
        blks = {i.blk for i, c in self.stores.values()}
        after = set().union(*[f.reachable(b) for b in blks]) if blks else set()
        prv = Prover(s)

        def never(b):
            hyp = []
            for h in loops_of(f, b):
                for r in ranges(s, h):
                    hyp += [le0(padd(poly(r.lo), {(r.atom,): 1}, -1)), le0(padd(padd({(r.atom,): 1}, poly(r.hi), -1), {(): 1}))]
            ws = ways(s, b)
            return bool(ws) and all(prv.absurd(list(w) + hyp) for w in ws)
        for i in throws(f):
            ctx.expect(i.blk not in after or never(i.blk), 'late', i.where, 'normalising is refused after values were changed')

    def rel(self, x, lo, hi):
        """fact: lo <= hi"""
        pos = x.op != 'not'
        y = x if pos else x.args[0]
        if y.op != 'fcmp':
            return False
        r, a, b = y.args[0], y.args[1], y.args[2]
        r = r[1:]
        if not pos:
            r = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'ne': 'eq'}.get(r)
        if r in ('lt', 'le'):
            return a is lo and b is hi
        if r in ('gt', 'ge'):
            return a is hi and b is lo
        # finding a value at all moves the extremes away from where they start
        return False

    def equal(self, x, lo, hi):
        pos = x.op != 'not'
        y = x if pos else x.args[0]
        if y.op != 'fcmp' or y.args[0][1:] not in ('eq', 'ne', 'lt', 'gt'):
            return None
        ab = y.args[1:]
        if y.args[0][1:] in ('lt', 'gt'):
            a, b = ab if y.args[0][1:] == 'lt' else ab[::-1]
            z = a.op == 'fconst' and float(a.args[0]) == 0 and b.op == 'fsub' and b.args == (hi, lo) or a is lo and b is hi
            return pos if z else None
        t = (y.args[0][1:] == 'eq') == pos
        if set(ab) == {lo, hi}:
            return t
        z = [a for a in ab if a.op == 'fconst' and float(a.args[0]) == 0]
        e = [a for a in ab if a.op == 'fsub' and set(a.args) == {lo, hi}]
        return t if z and e else None

    def iszero(self, x):
        pos = x.op != 'not'
        y = x if pos else x.args[0]
        if y.op != 'fcmp' or y.args[0][1:] not in ('eq', 'ne'):
            return False
        ab = y.args[1:]
        return ((y.args[0][1:] == 'eq') == pos) and any(a in (self.lo_, self.hi_) for a in ab) and \
            any(a.op == 'fconst' and float(a.args[0]) == 0 for a in ab)
