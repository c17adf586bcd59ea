"""Every loop advances towards its exit on every iteration.

Every loop of every function that an operation of the library, the
command-line tool or the Python module can reach is looked at in the flattened
intermediate code, with the values of its header on every complete iteration
(every acyclic path from the header back to it, whatever the comparisons of
data say).  A loop is accepted with one of these arguments: a counter moves by
a constant towards a bound that the loop does not change, and is compared with
it on every iteration; a set of integer measures (differences of compared
counters, flags that are only set, sizes of containers) none of which any
iteration increases, and one of which every iteration decreases while it is
known not to be negative; an iterator that is advanced on every iteration to
the end of a container that does not grow; a read from a stream on every
iteration whose failure leaves the loop; the list of members of a group, whose
links were only ever set to the previous end of the list when a free entry was
taken; a worker waiting for tasks and the prompt of the interactive session,
which wait for somebody else.  No function calls itself, directly or through
others.
"""
import re

from gx import api
from gx.lib import *
from gx.loops import ranges, exits, edge_cond, iter_skips, mentions, exceptional
from gx.members import Links
from gx.models import size_of
from gx.paths import split, rewrite, contradiction
from gx.prove import Prover, psubst
from gx.sym import neg_
from gx.terms import subterms
from gx.walk import iterations, header_phis
from checks.c24 import operations, owner

RULE = 'well-founded measure of every loop: never increased, decreased on every path through the body'
READ = re.compile(r'^(std::getline|std::operator>>|std::(basic_)?istream::(operator>>|getline|get|read|readsome)|readline|fgets|getc|fgetc)$')
STATE = re.compile(r'^std::basic_ios::(operator bool|operator!|fail|good)$|^std::basic_ios::operator void\*$')
INC = re.compile(r'(^|::)operator(\+\+|--)$|::(increment|decrement)$')
WAIT = re.compile(r'^std::condition_variable(_any)?::(wait|wait_for|wait_until)$')
LIMIT = 3000


def run(ctx):
    for part in ('lib', 'py'):
        p = ctx.prog(['index', 'rootrepo'] + INL, part) if part == 'py' else ctx.prog(['index', 'rootrepo'] + INL)
        Loops(ctx, p, part).run()


class Loops:
    def __init__(self, ctx, p, part):
        self.ctx, self.p, self.part = ctx, p, part
        self.reach = operations(ctx, p) if part == 'lib' else set(p.index)
        # run by somebody else: threads, library algorithms
        self.reach |= {n for n, d in p.index.items() if d.get('repo') and re.search(r"'lambda|\$_\d", d['dem'])}
        self.done = {}
        self.why = {}
        self.links = None
        self.callers, self.referred = {}, set()
        for n, d in p.index.items():
            if not d.get('repo') or n not in self.reach:
                continue
            for c in d.get('calls', ()):
                self.callers.setdefault(c, set()).add(n)
            self.referred |= set(d.get('refs', ()))

    def run(self):
        ctx, p = self.ctx, self.p
        self.recursion()
        n = 0
        seen = set()
        for name, f in sorted(p.funcs.items()):
            if name not in self.reach or not f.loops:
                continue
            for h in sorted(f.loops):
                k = self.ident(f, h).get(f.short)
                if not k:
                    continue
                k = (f.short, frozenset(k))
                if self.part == 'py' and not f.file.startswith('pygenex'):
                    continue
                n += 1
                bad = self.judge(name, k, h)
                ctx.count('loops: %s' % (self.why.get((name, k)) or 'judged in their callers'))
                key = 'loop:%s' % f.short
                if bad is None:
                    ctx.ok('%s: %s' % (self.at(f, h), self.why.get((name, k)) or 'judged in the callers'))
                else:
                    ctx.bad(key, self.at(f, h), 'a loop need not advance towards its exit on every iteration%s' %
                            ('' if bad is f else ' when reached from %s' % bad.short))
        if self.part == 'lib':
            ctx.require(n >= 60, 'loops not found')

    # ------------------------------------------------------------ identity
    def ident(self, f, h):
        """source function and places of a loop: the outermost function (after inlining) that has code in it"""
        c = f.__dict__.setdefault('_idents', {})
        if h not in c:
            by = {}
            for x in f.loops[h]:
                for i in f.blocks[x].ins:
                    if i.get('loc') and i.loc[1]:
                        by.setdefault(owner(i), set()).add(i.loc)
            c[h] = by
        return c[h]

    def at(self, f, h):
        t = [i for x in [h] + sorted(f.loops[h]) for i in f.blocks[x].ins if i.get('loc') and i.loc[1] and owner(i) == f.short]
        return t[0].where if t else f.where

    def judge(self, name, k, own=None, stack=()):
        f = self.p.funcs.get(name)
        if f is None:
            return None
        if (name, k) not in self.done:
            hs = [h for h in f.loops if (h == own if own is not None else self.ident(f, h).get(k[0], set()) & k[1])]
            self.done[name, k] = True
            for h in hs:
                w = self.local(f, h)
                if w is None:
                    self.done[name, k] = False
                    break
                self.why[name, k] = w
        if self.done[name, k]:
            return None
        self.why.pop((name, k), None)
        up = [c for c in sorted(self.callers.get(name, ())) if c not in stack]
        if not up or name in self.referred:
            return f
        for c in up:
            b = self.judge(c, k, None, stack + (name,))
            if b is not None:
                return b
        return None

    # ------------------------------------------------------------ arguments
    def local(self, f, h):
        s = self.ctx.sym(f, self.p, nogate=True, stable=stable_args)
        for g in (self.generated, self.counted, self.over_map, self.by_iterator, self.emptied, self.reading, self.chain, self.waiting, self.measured):
            w = g(s, f, h)
            if w:
                return w
        return None

    def always(self, f, h, b):
        """block b is passed in every complete iteration"""
        return all(f.dominates(b, l) for l in f.latches(h))

    def fixed(self, f, h, t):
        return not (t.defs & f.loops[h])

    def generated(self, s, f, h):
        """destruction of an array, written by the compiler"""
        calls = [i for b in f.loops[h] for i in f.blocks[b].ins if i.is_call and not (i.short or '').startswith('llvm')]
        if not calls or any(not i.short or not ('::~' in i.short or i.short.startswith('operator delete')) for i in calls):
            return None
        ph = [i for i in f.blocks[h].ins if i.op == 'phi' and i.ty == 'ptr']
        if not ph:
            return None
        for i in ph:
            a = s.val('%%%d' % i.id)
            for x in header_phis(s, h):
                if mentions(a, x):
                    steps = [padd(poly(v), {(x,): 1}, -1) for q, v in s.minc[x].items() if q != 'entry']
                    if steps and all(set(d) == {()} and d[()] < 0 for d in steps):
                        return 'destruction of an array'
        return None

    def counted(self, s, f, h):
        for r in ranges(s, h):
            if not self.always(f, h, r.test) or not self.fixed(f, h, r.hi if r.step > 0 else r.lo):
                continue
            cs = [edge_cond(s, b, n) for b, n in exits(s, h) if b == r.test]
            if any(c is not None and c.op == 'eq0' for c in cs):
                lo, hi = (r.lo, r.hi)
                fs = self.entry_facts(s, f, h)
                if not Prover(s).le(lo, hi, fs) and not self.length(lo, hi):
                    continue
            return 'counter towards a bound'
        return None

    def length(self, lo, hi):
        """from zero up to a count that an object keeps"""
        if lo.op == 'int' and lo.args[0] == 0 and place(hi) is not None:
            self.ctx.assume('the number of entries a container keeps of itself is not negative')
            return True
        return False

    def entry_facts(self, s, f, h):
        ent = [q for q in f.blocks[h].preds if q not in f.loops[h]]
        if len(ent) == 1:
            ef = list(s.facts(ent[0]))
            if f.edge_dominates(ent[0], h, h):
                s.edge_facts(ent[0], h, ef)
            return ef
        return list(s.facts(f.idom[h]))

    def over_map(self, s, f, h):
        for b, n in exits(s, h):
            c = edge_cond(s, b, n)
            if c is None or c.op != 'peq' or not self.always(f, h, b):
                continue
            for a, e in (c.args, c.args[::-1]):
                if e.op != 'mend' or a.op != 'phi' or a.args[1] != h or a not in s.minc:
                    continue
                if any(v.op != 'next' or v.args[0] is not a for q, v in s.minc[a].items() if q != 'entry'):
                    continue
                # nothing is added to the map but keys it already has
                grows = False
                for x in header_phis(s, h):
                    for q, v in s.minc[x].items():
                        if q == 'entry':
                            continue
                        for t in subterms(v):
                            if t.op == 'mins' and not any(y.op == 'itkey' and y.args[0] is a for y in subterms(t.args[1])):
                                grows |= self.map_of(s, a) is None or mentions(t, x)
                if not grows:
                    return 'iterator towards the end of a map'
        return None

    @staticmethod
    def map_of(s, a):
        from gx.models import iter_map
        return iter_map(s, a)

    def emptied(self, s, f, h):
        """one of the entries of a map is removed on every iteration, none is added"""
        for x in header_phis(s, h):
            vs = [v for q, v in s.minc[x].items() if q != 'entry']
            if not vs or not all(self.removed(v, x) for v in vs):
                continue
            if any(self.always(f, h, b) and (c := edge_cond(s, b, n)) is not None and mentions(c, x) for b, n in exits(s, h)):
                return 'entries removed from a map'
        return None

    @staticmethod
    def removed(v, x):
        n = 0
        while v.op == 'mdel' and any(y.op == 'itkey' for y in subterms(v.args[1])):
            v, n = v.args[0], n + 1
        return n > 0 and v is x

    def by_iterator(self, s, f, h):
        """an iterator kept in an object, advanced by its own operator on every iteration and compared on every iteration"""
        incs = [i for b in f.loops[h] for i in f.blocks[b].ins if i.is_call and i.short and INC.search(i.short) and
                not i.get('repo')]
        incs = [i for i in incs if not iter_skips(s, h, [i])]
        objs = {s.info[i.id]['args'][k] for i in incs for k in range(min(2, len(s.info[i.id]['args'])))} if incs else set()
        for b, n in exits(s, h):
            c = edge_cond(s, b, n)
            if c is None or not self.always(f, h, b):
                continue
            for x in header_phis(s, h):
                if x.args[2][0] == 'm' and x.args[2][1] in objs and mentions(c, x):
                    core = c.args[0] if c.op == 'not' else c
                    if core.op == 'call' and re.search(r'operator[!=]=$', str(core.args[0])):
                        return 'iterator towards the end of a sequence'
        return None

    def reading(self, s, f, h):
        reads = [i for b in f.loops[h] for i in f.blocks[b].ins if i.is_call and i.short and READ.match(i.short)]
        reads = [i for i in reads if not iter_skips(s, h, [i])]
        if not reads:
            return None
        if any(i.short == 'readline' for i in reads) and exits(s, h):
            return 'prompt of the interactive session'
        for b, n in exits(s, h):
            c = edge_cond(s, b, n)
            if c is None:
                continue
            t = f.blocks[b].term
            tests = [i for i in f.instrs() if i.is_call and i.short and STATE.match(i.short) and i.blk in f.loops[h] and
                     mentions(c, s.val('%%%d' % i.id)) and i.id in s.info]
            for i in tests:
                if not self.always(f, h, i.blk):
                    continue
                for r in reads:
                    if f.i_dominates(r, i) and self.same_stream(s, r, i):
                        return 'read from a stream that fails at its end'
        return None

    @staticmethod
    def same_stream(s, r, i):
        q = s.info[i.id]['args'][0]
        own = [s.val('%%%d' % r.id)] + [x for x in s.info[r.id]['args'][:1]]
        roots = {ptr_parts(x)[0] for x in own if x is not None}
        return any(mentions(q, x) for x in roots) or ptr_parts(q)[0] in roots

    def chain(self, s, f, h):
        """follows the links between the members of a group"""
        ph = header_phis(s, h)
        for a in ph:
            for b in ph:
                if a is b:
                    continue
                ok = True
                for q, v in s.minc[a].items():
                    if q == 'entry':
                        continue
                    w = s.minc[b].get(q)
                    ok = ok and w is not None and self.link(v, a, b, 0) and self.link(w, a, b, 4)
                if ok and len(s.minc[a]) > 1 and any(
                        c is not None and mentions(c, a) and self.always(f, h, e)
                        for e, n in exits(s, h) for c in [edge_cond(s, e, n)]):
                    return 'list of members'
        return None

    def link(self, t, a, b, half):
        if self.links is None:
            self.links = Links(self.ctx)
            self.entered(self.links)
        if t.op in ('lo32', 'hi32'):
            if (t.op == 'hi32') != (half == 4):
                return False
            t, half = t.args[0], 0
        pl = place(t)
        if pl is None:
            return False
        r, o = ptr_parts(pl)
        if r.op != 'elem' or set(o) - {()} or o.get((), 0) != self.links.prev + half:
            return False
        k = padd(poly(r.args[1]), poly(b), -1)
        return len(k) == 1 and len(list(k)[0]) == 2 and a in list(k)[0]

    def entered(self, lk):
        """a member is linked only into an entry that was free: the links cannot form a cycle"""
        s = lk.s
        for i, q, v in lk.entries:
            root = ptr_parts(q)[0]
            fs = s.facts(i.blk)
            marks = {x for t in fs for x in subterms(t) if x.op == 'ld' and x.args[1] == 'i32' and ptr_parts(x.args[0])[0] is root}
            P = Prover(s)
            self.ctx.expect(any(P.le(x, const(-1), fs) for x in marks), 'links:entry', i.where,
                            'an entry of the member table is linked without having been found free: the list of members may turn into a cycle')

    def waiting(self, s, f, h):
        ws = [i for b in f.loops[h] for i in f.blocks[b].ins if i.is_call and i.short and WAIT.match(i.short)]
        if ws and exits(s, h):
            return 'worker waiting for tasks'
        return None

    # ------------------------------------------------------------ measures
    def measured(self, s, f, h):
        try:
            its = iterations(s, h, LIMIT)
        except OverflowError:
            return None
        ph = [a for a in header_phis(s, h)]
        if not its:
            return 'never repeated'
        P = Prover(s)
        flags = [a for a in ph if self.flag(s, a)]
        cases = []
        for w, b in its:
            vals = [w.val(s.minc[a][b]) if b in s.minc[a] else a for a in ph]
            use = [k for k, a in enumerate(ph) if vals[k] is not a and not (vals[k].op in ('upd', 'call', 'ld') )]
            fs = [w.res(x) for x in w.facts]
            for a in flags:
                fs += [le0({(a,): 1, (): -1}), le0({(a,): -1})]
            try:
                cs = split(s, [vals[k] for k in use], fs, limit=2000)
            except OverflowError:
                return None
            for vs, fs2 in cs:
                fs2 = list(dict.fromkeys(fs2))
                if contradiction(fs2) or P.absurd(fs2):
                    continue
                m = {a: vals[k] for k, a in enumerate(ph)}
                for k, v in zip(use, vs):
                    m[ph[k]] = v
                cases.append((m, fs2))
        if not cases:
            return 'never repeated'
        cand = []
        for a in flags:
            cand.append(('flag', {(): 1, (a,): -1}))
            cand.append(('flag', {(a,): 1}))
        for a in ph:
            if any(m[a].op in ('pop', 'perm', 'vec', 'push') for m, _ in cases):
                cand.append(('size', poly(size_of(s, a))))
        for m, fs in cases:
            for t in fs:
                g, pos = (t.args[0], False) if t.op == 'not' else (t, True)
                if g.op == 'le0' and pos:
                    cand.append(('le', {k: -c for k, c in poly(g.args[0]).items()}))
                elif g.op == 'eq0' and not pos:
                    cand.append(('ne', poly(g.args[0])))
                    cand.append(('ne', {k: -c for k, c in poly(g.args[0]).items()}))
                elif g.op in ('ult', 'ule'):
                    x, y = g.args if pos else g.args[::-1]
                    cand.append(('le', padd(poly(y), poly(x), -1)))
        good, seen = [], set()
        for kind, M in cand:
            key = frozenset((tuple(x.uid for x in m), c) for m, c in M.items())
            if key in seen:
                continue
            seen.add(key)
            ats = {x for m in M for x in m}
            if not any(a in ats or any(mentions(x, a) for x in ats) for a in ph):
                continue
            if any(x not in ph and not self.outer(x, ph, f.loops[h]) for x in ats):
                continue
            nxt = [self.next(s, M, m) for m, _ in cases]
            if any(n is None for n in nxt):
                continue
            if all(P.prove(padd(n, M, -1), fs) for n, (m, fs) in zip(nxt, cases)):
                good.append((kind, M, nxt))
        left = []
        for k, (m, fs) in enumerate(cases):
            for kind, M, nxt in good:
                d = {x: c for x, c in padd(nxt[k], M, -1).items() if c}
                if P.prove(padd(d, {(): 1}), fs) and self.floor(s, f, h, P, kind, M, cases, nxt, k):
                    break
            else:
                left.append(fs)
        self.left = left
        return None if left else 'measures that only decrease'

    @staticmethod
    def flag(s, a):
        vs = list(s.minc[a].values())
        e = s.minc[a].get('entry')
        if e is None or e.op != 'int' or e.args[0] not in (0, 1):
            return False

        def ok(v, d=0):
            if v is a or v.op == 'int' and v.args[0] in (0, 1) or v.isbool:
                return True
            if d < 8 and v.op == 'sel':
                return ok(v.args[1], d + 1) and ok(v.args[2], d + 1)
            if d < 8 and v.op == 'phi' and v in s.minc:
                return all(ok(x, d + 1) for x in s.minc[v].values())
            return False
        return all(ok(v) for v in vs)

    @staticmethod
    def outer(x, ph, body):
        """x changes in the loop only through the values of the header"""
        if not x.defs & body:
            return True
        return x.op == 'size' and x.args[0] in ph

    @staticmethod
    def next(s, M, m):
        sub = {a: v for a, v in m.items() if v is not a}
        out = {}
        for mon, c in M.items():
            t = {(): c}
            for x in mon:
                if x.op == 'size' and x.args[0] in sub:
                    y = poly(size_of(s, sub[x.args[0]]))
                else:
                    y = poly(sub.get(x, x))
                r = {}
                for m1, c1 in t.items():
                    for m2, c2 in y.items():
                        k = tuple(sorted(m1 + m2, key=lambda z: z.uid))
                        r[k] = r.get(k, 0) + c1 * c2
                t = r
            out = padd(out, t)
        return out

    def floor(self, s, f, h, P, kind, M, cases, nxt, k):
        """the measure is not negative when it is decreased on case k"""
        fs = cases[k][1]
        neg = {m: -c for m, c in M.items()}
        if kind == 'size' or P.prove(neg, fs):
            return True
        if self.field(M):
            self.ctx.assume('the number of entries a container keeps of itself is not negative')
            return neg_(eq0(M)) in fs or neg_(eq0(neg)) in fs
        # invariant: not negative at first, and no iteration makes it so
        ent = {a: s.minc[a]['entry'] for a in header_phis(s, h)}
        if not P.prove({m: -c for m, c in self.next(s, M, ent).items()}, self.entry_facts(s, f, h)):
            return False
        return all(P.prove({m: -c for m, c in n.items()}, list(g) + [le0(neg)]) for n, (m, g) in zip(nxt, cases))

    @staticmethod
    def field(M):
        ats = [m for m in M if m]
        return len(ats) == 1 and len(ats[0]) == 1 and M[ats[0]] == 1 and () not in M and \
            ats[0][0].op == 'phi' and ats[0][0].args[2][0] == 'm' and 'size' in str(ats[0][0])

    # ------------------------------------------------------------ recursion
    def recursion(self):
        p = self.p
        own = {n for n in self.reach if p.index.get(n, {}).get('repo') and not p.index[n].get('decl')}
        idx, low, st, on, out = {}, {}, [], set(), []

        def visit(v0):
            work = [(v0, iter(p.index[v0].get('calls', ())))]
            idx[v0] = low[v0] = len(idx)
            st.append(v0)
            on.add(v0)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in p.index:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = len(idx)
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(p.index[w].get('calls', ()))))
                        break
                    if w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            x = st.pop()
                            on.discard(x)
                            c.append(x)
                            if x == v:
                                break
                        out.append(c)
        for n in sorted(own):
            if n not in idx:
                visit(n)
        for c in out:
            mine = sorted(x for x in c if x in own)
            if mine and (len(c) > 1 or c[0] in p.index[c[0]].get('calls', ())):
                d = p.index[mine[0]]
                self.ctx.bad('recursion:%s' % d['dem'].split('(')[0], '%s:%s' % (d.get('file'), d.get('line')),
                             'a function calls itself (%s): nothing shows that this ends' % ', '.join(p.index[x]['dem'].split('(')[0] for x in mine))
            else:
                for x in mine:
                    self.ctx.ok('no recursion: %s' % p.index[x]['dem'].split('(')[0])
        self.ctx.count('functions without recursion', len(own))
