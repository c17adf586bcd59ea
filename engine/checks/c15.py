"""Early abandoning never changes a distance that is within the bound.

Every function that takes two series and a bound is analysed (found by its
parameter types).  The bound may reach nothing but (a) the bound parameter of
another such function, unchanged, and (b) comparisons `value > bound`, strict,
possibly with both sides carried through the inverse of the final scaling.
From the exceeding side of such a comparison every path returns infinity; paths
that never take an exceeding side return neither infinity nor anything computed
from the bound, and take the same branches as without a bound.  The value compared is
established: the running total scaled exactly as the result is (point by point),
the minimum over a whole row of the cost matrix including its first cell
(warped), or a lower bound computed for the same two series.  Lower bound functions may use the bound
only to give up early on a sum of squares or absolute values.
"""
import re

from gx import api
from gx.lib import *
from gx.loops import loops_of
from gx.walk import walks, iterations, header_phis, constants
from gx.sym import fcmp, neg_
from gx.kbest import INF
from gx.real import real, atom

RULE = 'influence of the bound restricted to strict comparisons with established values'
PAIR = r'^([^(]* )?genex::(\w+::)*\w+(<[^()]*>)?\(genex::TimeSeries const&, genex::TimeSeries const&, double'
DIST = PAIR + r', std::vector<std::pair<int, int>'
LOW = PAIR + r'\)( const)?$'


def run(ctx):
    p = ctx.prog(plan([DIST, LOW], [DIST, LOW, r'^genex::TimeSeries::(?!getLength|operator\[\])']))
    fs = [f for f in p.funcs.values() if bounded_args(f)]
    nd = 0
    for f in fs:
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        nd += Bounded(ctx, f, s).run()
    ctx.require(nd >= 2, 'the distance computations with a bound were not found')


def bounded_args(f):
    return bool(re.search(DIST, f.dem) or re.search(LOW, f.dem))


class Bounded:
    def __init__(self, ctx, f, s):
        self.ctx, self.f, self.s = ctx, f, s
        ds = [a for a in s.argT if a.args[2] == 'double']
        ctx.require(len(ds) == 1, '%s takes more than one number' % f.short)
        self.B = ds[0]
        self.ab = [a for a in s.argT if a.args[2] == 'ptr' and a.args[1] not in ('this', 'sret')][:2]
        self.lower = not any(a.args[2] == 'ptr' for a in s.argT[s.argT.index(self.B) + 1:])
        self.name = re.search(r'(\w+(<[^()]*>)?)\(genex::TimeSeries', f.dem).group(1).replace('genex::', '')

    def tainted(self, t):
        return isinstance(t, T) and (t is self.B or any(x is self.B for x in subterms(t)))

    def callee_kind(self, i):
        if not i.is_call or not i.dem:
            return None
        if re.search(DIST, i.dem):
            return 'dist'
        if re.search(LOW, i.dem):
            return 'low'
        return None

    def run(self):
        ctx, f, s = self.ctx, self.f, self.s
        key = self.name
        ctx.count('lower bound functions' if self.lower else 'distance functions')
        # ------------------------------------------------------------ where the bound goes
        branches = []
        for i in f.instrs():
            if i.op == 'store':
                ctx.expect(not self.tainted(s.info[i.id]['val']), key + ':kept', i.where, 'the bound is stored')
            elif i.op == 'br' and i.ops:
                c = s.asbool(s.val(i.ops[0]))
                if self.tainted(c):
                    branches.append((i, c))
            elif i.is_call:
                k = self.callee_kind(i)
                args = s.info.get(i.id, {}).get('args') or []
                if k:
                    ctx.expect(args[2] is self.B or args[2] is INF, key + ':passed', i.where,
                               'the bound handed on is not the bound of the caller')
                for n, a in enumerate(args):
                    if not self.tainted(a):
                        continue
                    if not k:
                        ctx.expect(self.plain(i), key + ':passed', i.where, 'the bound is handed to something that does not take one')
        # ------------------------------------------------------------ comparisons
        over = []
        m0 = constants(s, lambda a: any(isinstance(x, T) and x.isbool or x.op == 'sel' for x in s.minc[a].values()))
        for h in f.loops:
            for a in header_phis(s, h):
                e = s.minc[a]['entry']
                if e.op == 'int' and all(self.known(b, h, v) is e for b, v in s.minc[a].items() if b != 'entry'):
                    m0[a] = e
        for i, c in branches:
            if self.decided(i.blk, c, m0):
                continue
            pos = True
            if c.op == 'not':
                c, pos = c.args[0], False
            ctx.count('comparisons with the bound')
            if self.lower and self.gives_up(i):
                ctx.ok(key + ':sum @ ' + i.where)
                continue
            x = self.comparison(c, i.where)
            if x:
                succ = i.get('succ')
                n = succ[0] if pos else succ[1]
                over.append((i.where, x, i.blk, (i.blk, n),
                             [(w, b) for w, b, _ in walks(s, i.blk, limit=20000, m0=m0) if len(w.path) > 1 and w.path[1] == n]))
        # comparisons whose outcome is kept in a flag and looked at by the next iteration
        for h in f.loops:
            for a in header_phis(s, h):
                vs = {b: v for b, v in s.minc[a].items() if b != 'entry' and self.tainted(v)}
                if not vs or a in m0:
                    continue
                e = s.minc[a]['entry']
                wh = f.blocks[h].term.where
                c = flag(list(vs.values())[0], e) if len(s.minc[a]) == 2 else None
                ctx.count('comparisons with the bound')
                if not ctx.expect(c is not None, key + ':comparison', wh, 'the bound decides something other than a comparison with the bound'):
                    continue
                x = self.comparison(c, wh)
                if not x:
                    continue
                ws = walks(s, h, stop=lambda b, n: n == h, limit=20000, m0={**m0, a: const(1 - e.args[0])})
                ctx.expect(all(n is None for _, _, n in ws), key + ':answer', wh, 'having exceeded the bound does not end the computation')
                over.append((wh, x, list(vs)[0], None, [(w, b) for w, b, n in ws if n is None]))
                m0[a] = e
        # ------------------------------------------------------------ what follows
        exceed = {e for _, _, _, e, _ in over if e}
        for wh, (bnd, val), blk, _, ws in over:
            vals = [w.val(s.val(f.blocks[b].term.ops[0])) for w, b in ws]
            ctx.expect(bool(vals) and all(v is INF for v in vals), key + ':answer', wh,
                       'having exceeded the bound does not lead to the answer infinity')
            ctx.expect(self.established(blk, bnd, val), key + ':established', wh,
                       'what is compared with the bound is not established for the whole distance: %s' % str(val)[:120])
        n = 0
        for w, b, _ in walks(s, 0, stop=lambda b, x: (b, x) in exceed, limit=50000, m0=m0):
            if f.blocks[b].term.op != 'ret':
                continue
            v = w.val(s.val(f.blocks[b].term.ops[0]))
            n += 1
            ok = v is not INF and not any(x is INF for x in subterms(v)) and not self.tainted_value(v)
            ctx.expect(ok, key + ':otherwise', f.blocks[b].term.where,
                       'infinity or a value depending on the bound is returned although the bound was not exceeded')
            if self.lower and self.calls_low():
                ctx.expect(self.combined(v), key + ':combined', f.blocks[b].term.where,
                           'lower bounds are combined into something that need not be one')
            if not self.lower:
                for x in subterms(v):
                    if x.op == 'ret' and self.low_ret(x):
                        ctx.bad(key + ':otherwise', f.blocks[b].term.where, 'a lower bound is returned as the distance')
        ctx.count('ways to return within the bound', n)
        ctx.expect(n > 0, key + ':otherwise', f.where, 'there is no way to return a value within the bound')
        return 0 if self.lower else 1

    def decided(self, b, c, m0):
        """earlier branches on the way to b leave only one outcome of c"""
        if c.op == 'fcmp' or c.op == 'not' and c.args[0].op == 'fcmp':
            return False
        ws = [w for w, _, n in walks(self.s, 0, stop=lambda x, n: n == b, limit=20000, m0=m0) if n == b]
        return bool(ws) and all(w.truth(w.res(c)) is not None for w in ws)

    def known(self, b, h, v):
        """the value v has when the loop at h is entered again from b"""
        if v.op == 'int':
            return v
        c = self.s.asbool(v)
        fs = set(self.s.facts(b)) | set(edge(self.s, b, h))
        return const(1) if c in fs else const(0) if neg_(c) in fs else v

    def comparison(self, c, wh):
        """(bound, value) if c says that the value exceeds the bound"""
        ctx, key = self.ctx, self.name
        good = c.op == 'fcmp' and self.tainted(c.args[1]) != self.tainted(c.args[2])
        if not ctx.expect(good, key + ':comparison', wh, 'the bound decides something other than a comparison with the bound'):
            return None
        pred, x, y = c.args
        bnd, val = (x, y) if self.tainted(x) else (y, x)
        if not ctx.expect(pred == ('olt' if bnd is x else 'ogt'), key + ':strict', wh,
                          'a value equal to the bound is treated as exceeding it'):
            return None
        return bnd, val

    def plain(self, i):
        """arithmetic, or the scaling of the bound"""
        return i.short in ('sqrt', 'pow', 'fabs') or (i.short or '').startswith('gx.') or (i.short or '').startswith('llvm.fmuladd')

    def tainted_value(self, v):
        """the value mentions the bound other than as the bound handed to another computation"""
        if v is self.B:
            return True
        if v.op in ('ret', 'arg', 'fconst', 'int'):
            return False
        return any(self.tainted_value(a) for a in v.args if isinstance(a, T))

    def low_ret(self, x):
        return any(self.callee_kind(i) == 'low' and self.s.vals.get(i.id) is x for i in self.f.instrs())

    def calls_low(self):
        return any(self.callee_kind(i) == 'low' for i in self.f.instrs())

    def combined(self, v):
        if v.op in ('fmax', 'fmin'):
            return all(self.combined(a) for a in v.args)
        if v.op == 'sel':
            return self.combined(v.args[1]) and self.combined(v.args[2])
        return self.low_ret(v) and self.same_pair(v)

    def same_pair(self, v):
        for i in self.f.instrs():
            if self.callee_kind(i) == 'low' and self.s.vals.get(i.id) is v:
                a = self.s.info[i.id]['args']
                return {a[0], a[1]} == set(self.ab)
        return False

    # ------------------------------------------------------------ lower bounds
    def gives_up(self, i):
        """the comparison only ends a loop early that adds up non-negative terms"""
        s, f = self.s, self.f
        hs = loops_of(f, i.blk)
        if not hs:
            return False
        h = hs[-1]
        body = f.loops[h]
        accs = header_phis(s, h)
        for w, b in iterations(s, h):
            for a in accs:
                v = w.val(s.minc[a][b])
                if v is a or poly_ok(v, a):
                    continue
                if v.op == 'fadd' and a in v.args and nonneg([x for x in v.args if x is not a] or [a]):
                    continue
                return False
        # nothing but the sums is decided by leaving: both ways out lead to the same place
        outs = {n for blk in body for n in f.blocks[blk].succs if n not in body and
                not any(j.op == 'landingpad' for j in f.blocks[n].ins) and leads_to_ret(s, n)}
        if len(outs) == 1:
            return True
        vals = {w.res(s.val(f.blocks[b].term.ops[0])) for w, b, n in walks(s, h) if f.blocks[b].term.op == 'ret'}
        return len(vals) == 1 and INF not in vals

    # ------------------------------------------------------------ distances
    def established(self, blk, bnd, val):
        s, f = self.s, self.f
        if val.op == 'ret' and self.low_ret(val):
            return bnd is self.B and self.same_pair(val)
        hs = loops_of(f, blk)
        if not hs:
            return False
        h = hs[-1]
        # minimum of a row
        if val.op == 'phi' and val in s.minc and val.args[1] != h and h in f.loops and val.args[1] in f.loops[h] and val.args[1] in f.loops:
            return bnd is self.B and self.row_minimum(h, val)
        # running total
        fin = self.final(h)
        if not fin:
            return False
        for w, b, n in walks(s, h, f.loops[h], lambda b, n: b == blk or n == h or n not in f.loops[h]):
            if b != blk:
                continue
            if n is not None and n in f.loops[h]:
                latch = [x for x in f.blocks[h].preds if x in f.loops[h]]
                if len(latch) != 1:
                    return False
                nxt = {a: w.res(s.minc[a][latch[0]]) for a in header_phis(s, h)}
                x = w.res(val)
                for v in fin:
                    if not exceeds(rewrite(v, nxt), self.B, x, w.res(bnd)):
                        return False
                return True
        return False

    def final(self, h):
        """values returned when loop h has run to its end, over its merges"""
        s, f = self.s, self.f
        out = []
        for w, b, n in walks(s, h):
            t = f.blocks[b].term
            if t.op == 'ret' and not any(self.tainted(x) and pos for x, pos in facts_of(w)):
                v = w.res(s.val(t.ops[0]))
                if v is not INF:
                    out.append(v)
        return list(dict.fromkeys(out))

    def row_minimum(self, h, D):
        """D is the smallest of all cells of row i of the matrix the result is taken from"""
        s, f = self.s, self.f
        g = D.args[1]
        if s.minc[D]['entry'] is not INF:
            return False
        fin = [v for v in self.final(h)]
        mats = set()
        for v in fin:
            p = place(v)
            if p is None or p.op != 'elem' or p.args[0].op != 'elem':
                return False
            mats.add(p.args[0].args[0])
        if len(mats) != 1:
            return False
        M = mats.pop()
        its = iterations(s, g)
        if not its:
            return False
        for w, b in its:
            v = w.val(s.minc[D][b])
            if v.op != 'fmin' or D not in v.args:
                # written as a comparison
                cell = self.cell(w, M, h, g)
                if cell is None:
                    return False
                less = fcmp('olt', cell, D)
                if v is cell and less in w.fset or v is D and neg_(less) in w.fset:
                    continue
                return False
            other = [x for x in v.args if x is not D]
            cell = self.cell(w, M, h, g)
            if len(other) != 1 or cell is None or other[0] is not cell:
                return False
        return True

    def cell(self, w, M, h, g):
        """value of the cell of the current row that this iteration is about, at its end"""
        s, f = self.s, self.f
        last = None
        for i in w.instrs():
            if i.op == 'store':
                p = s.info[i.id]['ptr']
                if p.op == 'elem' and p.args[0].op == 'elem' and p.args[0].args[0] is M:
                    last = (p, s.info[i.id]['val'])
        if last is None:
            for i in w.instrs():
                if i.op == 'load':
                    p = s.info[i.id]['ptr']
                    if p.op == 'elem' and p.args[0].op == 'elem' and p.args[0].args[0] is M:
                        last = (p, s.vals[i.id])
        if last is None:
            return None
        p, v = last
        row, col = p.args[0].args[1], p.args[1]
        rows = [a for a in header_phis(s, h)]
        cols = [a for a in header_phis(s, g)]
        if row not in rows or w.val(col) not in cols and not any(w.val(col) is const(0) and eq0({(c,): 1}) in w.fset for c in cols):
            return None
        return w.val(v)


def flag(v, e):
    """condition under which the flag v differs from its first value e"""
    if e.op != 'int' or e.args[0] not in (0, 1):
        return None
    if v.op == 'sel' and all(x.op == 'int' and x.args[0] in (0, 1) for x in v.args[1:]):
        c = v.args[0] if v.args[1].args[0] == 1 else neg_(v.args[0])
    elif v.isbool:
        c = v
    else:
        return None
    return c if e.args[0] == 0 else neg_(c)


def poly_ok(v, a):
    """a counter"""
    d = poly(v) if v.op not in ('fadd', 'fsub', 'fmul', 'fdiv') else None
    return d is not None and d.get((a,)) == 1 and not set(d) - {(a,), ()}


def leads_to_ret(s, n):
    return any(s.fn.blocks[b].term.op == 'ret' for b in s.fn.reachable(n)) or s.fn.blocks[n].term.op == 'ret'


def nonneg(ts):
    for t in ts:
        if t.op in ('pow',) and t.args[1] in (mk('fconst', '2'), mk('fconst', '2.0')):
            continue
        if t.op in ('fabs', 'sqrt') or t.op == 'fconst' and not str(t.args[0]).startswith(('-', 'n')):
            continue
        if t.op == 'fmul' and t.args[0] is t.args[1]:
            continue
        return False
    return True


def facts_of(w):
    for x in w.facts:
        if x.op == 'not':
            yield x.args[0], False
        else:
            yield x, True


def factors(t):
    """multiset of factors of a product"""
    if t.op == 'fmul':
        return factors(t.args[0]) + factors(t.args[1])
    if t.op == 'pow' and t.args[1] is mk('fconst', '2'):
        return factors(t.args[0]) * 2
    if t.op == 'sitofp':
        d = poly(t.args[0])
        if len(d) == 1:
            (m, c), = d.items()
            if m and c != 1:
                return [mk('fconst', str(c)), mk('sitofp', mkpoly({m: 1}))]
    return [t]


def exceeds(res, B, val, bnd):
    """val > bnd says the same as res > B, undoing the scaling of res step by step"""
    def leaf(t):
        if t is B:
            return atom('B')
        if t is val:
            return atom(('count', 'total'))
        if t.op == 'ld' and t.args[1] == 'i32':
            return atom(('count', t.uid))
    total, b = atom(('count', 'total')), atom('B')
    r, lim = real(res, leaf), real(bnd, leaf)
    for k in (1, 2):
        r_, b_ = (r, b) if k == 1 else (r * r, b * b)
        c = r_ / total
        if c.same(b_ / lim) and all(isinstance(x, tuple) and x[0] == 'count' and x[1] != 'total' for x in c.atoms()):
            return True
    rhs = [B]
    want = sorted(x.uid for x in factors(bnd))
    for _ in range(6):
        if res is val and sorted(x.uid for x in rhs) == want:
            return True
        if res.op == 'sqrt':
            res, rhs = res.args[0], rhs + rhs
        elif res.op == 'fdiv':
            res, rhs = res.args[0], rhs + factors(res.args[1])
        else:
            return False
    return False
