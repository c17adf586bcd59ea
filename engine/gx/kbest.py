"""Bounded collections of candidates: who is put in, with which distance, how many can be held, and in which order."""
from . import api
from .lib import *
from .terms import fcmp, TRUE
from .models import size_of

CAND = 'genex::candidate_time_series_t'
GROW = ('std::vector::push_back', 'std::vector::emplace_back')
PERM = ('std::sort', 'std::stable_sort', 'std::make_heap', 'std::push_heap', 'std::pop_heap', 'std::sort_heap')
QUIET = ('front', 'back', 'begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'operator[]', 'at', 'reserve', 'capacity',
         'data', 'shrink_to_fit', 'rbegin', 'rend')
INF = mk('fconst', 'inf')


def cand_vectors(s):
    """addresses of the candidate collections of a function"""
    out = set()
    for i in s.fn.instrs():
        c = s.info.get(i.id, {}).get('call')
        if c is not None and c.short.startswith('std::vector::') and c.this is not None and c.ctargs and c.ctargs[0] == CAND:
            out.add(c.this)
    return out


def is_dist_call(s, i):
    """indirect call of a distance: two series, a bound, an alignment -> number"""
    return i.is_call and i.dem is None and i.ty == 'double' and len(s.info.get(i.id, {}).get('args', ())) == 4


class Collector:
    ELEM = CAND

    def __init__(self, ctx, s, what, V, k):
        self.ctx, self.s, self.what, self.V, self.k = ctx, s, what, V, k
        self.fn = s.fn
        self.calls = []
        for i in self.fn.instrs():
            c = s.info.get(i.id, {}).get('call')
            if c is None:
                continue
            if c.this is V and c.short.startswith('std::vector::'):
                self.calls.append((i, c))
            elif c.short in PERM and c.params and c.params[0].op == 'vit' and c.params[0].args[0] is V:
                self.calls.append((i, c))
        self.byid = {i.id: (i, c) for i, c in self.calls}
        self.heads = {}
        for t, inc in s.minc.items():
            if 'entry' in inc and t.args[2] == ('m', V, 'obj'):
                self.heads[t.args[1]] = t
        self.hyps = []
        self.always = False

    # ------------------------------------------------------------ structure
    def prev(self, t):
        """content before the last change of content t"""
        if t.op in ('perm', 'pop', 'push'):
            return t.args[0]
        if t.op == 'vec' and isinstance(t.args[1], tuple) and t.args[1][0] in ('resize', 'erase'):
            i, _ = self.byid[t.args[1][2]]
            return api.content_before(self.s, i, self.V)
        return None

    def full_range(self, i, c):
        """the algorithm runs over the whole collection"""
        old = api.content_before(self.s, i, self.V)
        return len(c.params) >= 2 and c.params[0] is mk('vit', self.V, const(0)) and \
            c.params[1] is mk('vit', self.V, size_of(self.s, old))

    def natural_order(self, c):
        """compares with the order of the candidates themselves"""
        return len(c.params) == 2 or all(x in ('std::less<%s>' % self.ELEM, 'std::less<void>') for x in (c.ftargs or [])[1:])

    def tail(self, i, c):
        """an erase that only shortens the collection"""
        old = api.content_before(self.s, i, self.V)
        return len(c.params) == 2 and c.params[0].op == 'vit' and c.params[1] is mk('vit', self.V, size_of(self.s, old))

    def check_ops(self):
        """every change of the collection is one the analysis understands"""
        for i, c in self.calls:
            n = c.short.split('::')[-1]
            if c.isctor:
                self.ctx.expect(not c.ptypes or c.ptypes[0].startswith('std::vector<'), '%s-prefilled' % self.what, i.where,
                                'the collection starts with elements nobody examined')
            elif c.isdtor or n in QUIET or c.short in GROW or n in ('pop_back', 'clear', 'erase', 'swap'):
                if n == 'swap' or n == 'erase' and not self.tail(i, c):
                    self.ctx.bad('%s-unknown-change' % self.what, i.where, 'candidates are removed in a way that is not accounted for')
            elif n == 'resize':
                old = size_of(self.s, api.content_before(self.s, i, self.V))
                pr = Prover(self.s)
                self.ctx.expect(pr.le(c.params[0], old, list(self.s.facts(i.blk)) + self.hyps), '%s-placeholder' % self.what,
                                i.where, 'the collection can be filled up with candidates that were never examined')
            elif c.short in PERM:
                self.ctx.expect(self.full_range(i, c) and self.natural_order(c), '%s-%s-range' % (self.what, n), i.where,
                                '%s does not run over the whole collection in the order of the candidates' % n)
            else:
                self.ctx.bad('%s-unknown-change' % self.what, i.where, 'the collection is changed by %s' % c.short)
            self.ctx.count('operations on result collections')

    # ------------------------------------------------------------ size
    def counters(self):
        """loop counters that start at k"""
        s, out = self.s, {}
        known = {self.k}
        for h in sorted(self.heads, key=lambda h: self.fn.rpo_no[h]):
            for t, inc in s.minc.items():
                if t.args[1] == h and 'entry' in inc and inc['entry'] in known and t.args[2][0] == 'r':
                    out.setdefault(h, []).append(t)
                    known.add(t)
        return out

    def size_hyps(self, counter):
        hs = []
        for h, c in self.heads.items():
            z = mk('size', c)
            hs.append(le0(padd(poly(z), poly(self.k), -1)))
            if counter is not None:
                if h not in counter:
                    return None
                q = counter[h][0]
                hs.append(eq0(padd(padd(poly(z), poly(q)), poly(self.k), -1)))
                hs.append(le0({(q,): -1}))
        return hs

    def inductive(self, counter):
        s = self.s
        hyps = self.size_hyps(counter)
        if hyps is None:
            return None
        pr = Prover(s)
        for h, c in self.heads.items():
            q = counter[h][0] if counter is not None else None
            ent = [p for p in self.fn.blocks[h].preds if p not in self.fn.loops[h]]
            for p, v in s.minc[c].items():
                for pp in (ent if p == 'entry' else [p]):
                    w = s.minc[q][p] if q is not None else const(0)
                    for (v1, w1), fs in split(s, [v, w], edge(s, pp, h)):
                        fs = list(fs) + hyps
                        if pr.absurd(fs):
                            continue
                        z = size_of(s, v1)
                        if not pr.le(z, self.k, fs):
                            return None
                        if q is not None and (not pr.le(add(z, w1), self.k, fs) or not pr.le(self.k, add(z, w1), fs)
                                              or not pr.ge0(w1, fs)):
                            return None
        return hyps

    def invariant(self):
        """size <= k at every loop head, if it can be established; keeps the hypotheses that follow"""
        cs = self.counters()
        for counter in ([cs] if all(h in cs for h in self.heads) else []) + [None]:
            r = self.inductive(counter)
            if r is not None:
                self.hyps = r
                self.ctx.ok('%s holds at most k candidates at every loop head' % self.what)
                return True
        return False

    # ------------------------------------------------------------ what is put in
    def pushes(self):
        return [(i, c) for i, c in self.calls if c.short in GROW]

    def pushed(self, i, c):
        """(series address copied from, distance term) of a candidate put in"""
        s = self.s
        st = api.state_before(s, i)
        if c.short.endswith('emplace_back') and len(c.params) == 2:
            d = c.params[1]
            if c.ptypes[1].endswith('&') or c.ptypes[1].endswith('&&'):
                d = s.peek(st, d, 'double')
            return c.params[0], d
        p = c.params[0]
        src = None
        order = {j.id: n for n, j in enumerate(self.fn.blocks[i.blk].ins)}
        best = None
        for j in self.fn.instrs():
            cj = s.info.get(j.id, {}).get('call')
            if cj is None or cj.this is not p or not cj.params or not cj.short.startswith(TS + '::'):
                continue
            if not (cj.isctor or cj.short.endswith('operator=')):
                continue
            if j.blk == i.blk and order[j.id] < order[i.id] or j.blk != i.blk and self.fn.dominates(j.blk, i.blk):
                if best is None or self.fn.dominates(best.blk, j.blk):
                    best, src = j, cj.params[0]
        d = None
        for (q, ty) in s.universe:
            r, o = ptr_parts(q)
            r0, o0 = ptr_parts(p)
            if ty == 'double' and r is r0 and not (set(padd(o, o0, -1)) - {()}):
                d = s.peek(st, q, ty)
        return src, d

    def in_place(self, p):
        """address inside an element of the collection: its position"""
        r = ptr_parts(p)[0] if isinstance(p, T) else None
        return r.args[1] if r is not None and r.op == 'elem' and r.args[0] is self.V else None

    def overwrites(self):
        """(assignment, series address copied from, distance) of candidates that take the place of another"""
        s, out, dists = self.s, [], []
        for i in self.fn.instrs():
            if i.op == 'store' and self.in_place(s.info[i.id]['ptr']) is not None:
                dists.append(i)
            c = s.info.get(i.id, {}).get('call')
            if c is not None and c.this is not None and self.in_place(c.this) is not None and \
                    not c.is_const and not c.isctor and not c.isdtor and c.short.startswith(TS + '::'):
                out.append((i, c))
        res = []
        for i, c in out:
            src = c.params[0] if c.short.endswith('::operator=') and c.params else None
            for j in self.fn.instrs():
                cj = s.info.get(j.id, {}).get('call')
                if cj is not None and cj.this is src and cj.isctor and cj.params and cj.short.startswith(TS + '::') and \
                        self.fn.dominates(j.blk, i.blk):
                    src = cj.params[0]
                    break
            at = self.in_place(c.this)
            ds = [j for j in dists if self.in_place(s.info[j.id]['ptr']) is at and self.fn.dominates(i.blk, j.blk) and
                  s.info[j.id]['ptr'].note is not None and name_of(s.info[j.id]['ptr']) == 'dist']
            d = None
            if len(ds) == 1:
                d = s.info[ds[0].id]['val']
                dists.remove(ds[0])
            res.append((i, src, d))
        for j in dists:
            self.ctx.bad('%s-altered' % self.what, j.where, 'a candidate already held is changed')
        for i, src, d in res:
            old = api.content_before(s, i, self.V)
            at = self.in_place(s.info[i.id]['call'].this)
            self.ctx.expect(old.op == 'perm' and old.args[1] == 'std::pop_heap' and
                            mkpoly(padd(poly(size_of(s, old)), poly(at), -1)) is const(1), '%s-replaced' % self.what, i.where,
                            'a candidate other than the farthest one is overwritten')
        return res

    def replaced(self, t):
        """content t is a heap whose farthest candidate was overwritten: the heap before"""
        if t.op == 'perm' and t.args[1] == 'std::push_heap' and t.args[0].op == 'perm' and t.args[0].args[1] == 'std::pop_heap':
            for i in self.fn.instrs():
                c = self.s.info.get(i.id, {}).get('call')
                if c is not None and c.this is not None and self.in_place(c.this) is not None and not c.is_const and \
                        api.content_before(self.s, i, self.V) is t.args[0]:
                    return t.args[0].args[0]
        return None

    def bound_guard(self, d, bound, fs):
        """facts say the distance came out below its bound"""
        return fcmp('olt', d, bound) in fs or fcmp('ult', d, bound) in fs

    def heap_ok(self, t, fs, pr):
        """the content is a heap (largest first)"""
        if t.op == 'perm':
            if t.args[1] == 'std::make_heap':
                return True
            if t.args[1] == 'std::push_heap' and t.args[0].op == 'push':
                return self.heap_ok(t.args[0].args[0], fs, pr)
            if self.replaced(t) is not None:
                return self.heap_ok(self.replaced(t), fs, pr)
            return False
        if t.op == 'pop':
            return t.args[0].op == 'perm' and t.args[0].args[1] == 'std::pop_heap' and self.heap_ok(t.args[0].args[0], fs, pr)
        if t.op == 'vec' and t.args[0] is const(0):
            return True
        if t in self.heads.values():
            return self.always or pr.le(self.k, mk('size', t), list(fs) + self.hyps)
        return False

    def is_front(self, b):
        """term is the distance of the first candidate held"""
        if b.op == 'phi' and b.args[2][0] == 'm':
            q, ty = b.args[2][1:]
        elif b.op == 'ld':
            q, ty = b.args[:2]
        else:
            return False
        return ptr_parts(q)[0] is mk('elem', self.V, const(0)) and ty == 'double'
