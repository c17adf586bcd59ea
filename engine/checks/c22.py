"""Copies of a series are faithful and independent.

Every member function of the series class (found through the type) is flattened
and all of its ways to return are enumerated.  Ownership is treated as a linear
resource: the values of a series that owns them, the envelope arrays of a
series, and everything allocated on the way must at return either have been
released exactly once, in the matching form, or be held by exactly one owning
field of one object; values merely referred to are never released and never
become owned, and whenever an allocation can fail no owning field holds released
memory.  Ways that do not exclude that source and target are the same object
are also judged with both being the same.  A copy has the position, length and
ownership of its source and either refers to the same values or holds a
complete copy of them; equality is answered with true only behind equal lengths
and a complete comparison of all values, or for the same values.
"""
import re

from gx import api, build
from gx.lib import *
from gx.loops import ranges, loops_of
from gx.paths import rewrite
from gx.walk import walks, iterations, alternatives, header_phis, Walk
from gx.sym import neg_

RULE = 'linear ownership of the arrays of a series over all paths of its member functions; field correspondence of copies'
POS = ['getLength', 'getIndex', 'getStart', 'getEnd']
KEEP = [r'^lower_upper_lemire\(', r'^genex::TimeSeries::(printData|getIdentifierString|average|serialize)\b']
NEW = {'operator new[]': 'operator delete[]', 'operator new': 'operator delete', 'malloc': 'free', 'calloc': 'free'}
SELF = re.compile(r'^%s::(~?TimeSeries|operator=|\w+|operator\+=|operator==)\(' % TS)


def members(ctx):
    """[(function, values)] of the member functions of the series class"""
    p = ctx.prog(['index'] + plan([r'^%s::[^()<]*\(' % TS], KEEP))
    out = []
    for f in p.funcs.values():
        if f.dem.startswith(TS + '::') and 'this' in [a.args[1] for a in ctx.sym(f, p, nogate=True, stable=stable_args, distinct=True).argT]:
            out.append((f, ctx.sym(f, p, nogate=True, stable=stable_args, distinct=True)))
    ctx.require(len(out) >= 8, 'the member functions of a series were not found')
    return p, out


class Layout:
    """fields of a series: position, values, ownership flag, other arrays"""

    def __init__(self, ctx, fs):
        self.ts = ts_roles(ctx)
        self.data = self.ts.off['getData']
        d = [(f, s) for f, s in fs if f.short == TS + '::~TimeSeries']
        ctx.require(len(d) >= 1, 'a series has no destructor')
        f, s = d[0]
        this = s.argByName['this']
        self.owner = None
        self.arrays = set()
        for i in f.instrs():
            if i.is_call and i.short in NEW.values():
                q = place(s.info[i.id]['args'][0])
                if q is None or ptr_parts(q)[0] is not this:
                    continue
                o = ptr_parts(q)[1].get((), 0)
                if o != self.data:
                    self.arrays.add(o)
                    continue
                for x in s.facts(i.blk):
                    y = x.args[0] if x.op == 'not' else x
                    if y.op == 'eq0':
                        for a in subterms(y):
                            pl = place(a) if a.op == 'ld' else None
                            if pl is not None and ptr_parts(pl)[0] is this and a.args[1] == 'i8':
                                self.owner = ptr_parts(pl)[1].get((), 0)
        ctx.require(self.owner is not None, 'releasing the values of a series does not depend on a flag')

    def at(self, o, off):
        return ptr_add(o, {(): off} if off else {})


class Member:
    def __init__(self, ctx, lay, f, s):
        self.ctx, self.lay, self.f, self.s = ctx, lay, f, s
        m = re.match(r'^%s::([^(]*)\((.*)\)( const)?$' % TS, f.dem)
        self.name, self.params = m.group(1), m.group(2)
        self.key = '%s(%s)' % (self.name, self.params.replace('genex::', ''))
        self.this = s.argByName['this']
        ps = [a for a in s.argT if a.args[1] not in ('this', 'sret')]
        self.other = None
        if re.match(r'genex::TimeSeries( const)?&&?$', self.params):
            self.other = ps[0]
        self.args = ps
        self.ctor = self.name == 'TimeSeries'
        self.dtor = self.name == '~TimeSeries'
        self.assign = self.name == 'operator='
        self.moves = self.params.endswith('&&')

    # ------------------------------------------------------------ values
    def entry(self, o, off, ty):
        return mk('ld', self.lay.at(o, off), ty, ())

    def exit(self, w, o, off, ty):
        return w.val(self.s.peek(self.s.outstate[w.path[-1]], self.lay.at(o, off), ty))

    def flag(self, w, v):
        """truth of an ownership flag on the way, or None"""
        if v.op == 'int' or v.op == 'const':
            return v is not const(0)
        if v.isbool:
            return w.truth(v)
        return w.truth(neg_(eq0({(v,): 1})))

    def flagcond(self, v):
        return v if v.isbool else neg_(eq0({(v,): 1}))

    def settled(self, w):
        """the way, once for each ownership of the objects involved"""
        out = [w]
        vs = []
        for o in self.objs():
            if not (self.ctor and o is self.this):
                vs.append(self.entry(o, self.lay.owner, 'i8'))
        for v in vs:
            nx = []
            for x in out:
                if self.flag(x, v) is not None:
                    nx.append(x)
                    continue
                for b in (True, False):
                    fs = list(x.facts)
                    self.s.cond_facts(self.flagcond(v), b, fs)
                    nx.append(Walk(self.s, x.path, fs, x.m))
            out = nx
        return out

    def objs(self):
        return [self.this] + ([self.other] if self.other is not None else [])

    # ------------------------------------------------------------ ownership
    def run(self):
        ctx, s, f = self.ctx, self.s, self.f
        ctx.count('member functions')
        ws = [(w, b) for w, b, n in walks(s, 0) if n is None]
        for w, b in ws:
            for x in self.settled(w):
                ctx.count('ways to return')
                same = self.same(x)
                if same is not True:
                    self.linear(x, {})
                if self.other is not None and not self.ctor and same is not False:
                    self.linear(x, {self.other: self.this})
                    if same is None:
                        self.early(x)
                if self.other is not None and (self.ctor or self.assign):
                    if same is not True:
                        self.faithful(x)
                    else:
                        self.untouched(x)
        if self.ctor and self.other is None:
            for w, b in ws:
                self.fresh(w)

    def same(self, w):
        if self.other is None:
            return None
        return w.truth(mk('peq', *sorted([self.this, self.other], key=lambda t: t.uid)))\
            if mk('peq', self.this, self.other) not in w.fset and neg_(mk('peq', self.this, self.other)) not in w.fset \
            else mk('peq', self.this, self.other) in w.fset

    def linear(self, w, alias):
        ctx, s, f, lay = self.ctx, self.s, self.f, self.lay
        key = self.key
        rw = (lambda t: rewrite(t, alias)) if alias else (lambda t: t)
        facts = {rw(x) for x in w.facts} if alias else w.fset
        objs = [self.this] if alias else self.objs()
        where = f.blocks[w.path[-1]].term.where
        if alias:
            # the same object cannot own its values and not own them
            if any(neg_(x) in facts for x in facts):
                return
            if any(x.op == 'not' and x.args[0].op == 'peq' and x.args[0].args[0] is x.args[0].args[1] for x in facts):
                return

        def isnull(v):
            return v is NULL or mk('peq', NULL, v) in facts or mk('peq', v, NULL) in facts
        owned, lent = {}, set()
        for o in objs:
            if self.ctor and o is self.this:
                continue
            d = self.entry(o, lay.data, 'ptr')
            if self.flag(w, self.entry(o, lay.owner, 'i8')):
                owned[d] = 'operator delete[]'
            else:
                lent.add(d)
            for a in lay.arrays:
                owned[self.entry(o, a, 'ptr')] = 'operator delete[]'
        gone = {}
        fields = [(o, a) for o in objs for a in [lay.data] + sorted(lay.arrays)]
        for i in w.instrs():
            if not i.is_call:
                continue
            if i.short in NEW:
                st = api.state_before(s, i)
                for o, a in fields:
                    if self.ctor and o is self.this:
                        continue
                    v = rw(w.res(s.peek(st, lay.at(o, a), 'ptr')))
                    if v in gone and (a != lay.data or self.flag(w, w.val(s.peek(st, lay.at(o, lay.owner), 'i8')))):
                        ctx.bad(key + ':failing', i.where, 'if this allocation fails, a series still holds memory that was already released')
                owned[s.vals[i.id]] = NEW[i.short]
            elif i.short in NEW.values():
                v = rw(w.res(s.info[i.id]['args'][0]))
                if isnull(v):
                    continue
                ctx.expect(v in owned, key + ':foreign', i.where,
                           'releases values that the series merely refers to' if v in lent else 'releases memory that the series does not own')
                if v in owned:
                    ctx.expect(owned[v] == i.short, key + ':form', i.where, 'memory is released in another form than it was allocated')
                ctx.expect(v not in gone, key + ':twice', i.where, 'memory is released twice')
                gone[v] = i
        held = {}
        if not self.dtor:
            for o, a in fields:
                v = rw(self.exit(w, o, a, 'ptr'))
                if a == lay.data and not self.flag(w, self.exit(w, o, lay.owner, 'i8')):
                    ctx.expect(v not in owned or isnull(v), key + ':disowned', where, 'values that were allocated are not owned by anyone')
                    ctx.expect(v not in gone, key + ':dangling', where, 'a series refers to memory that was released')
                    continue
                if isnull(v):
                    continue
                ctx.expect(v not in lent, key + ':claims', where, 'a series claims values that it merely refers to')
                ctx.expect(v in lent or v in owned, key + ':unknown', where, 'a series owns memory of unknown origin: %s' % str(v)[:60])
                ctx.expect(v not in gone, key + ':dangling', where, 'a series holds memory that was released')
                ctx.expect(v not in held, key + ':shared', where, 'memory is owned twice')
                held[v] = (o, a)
        for v in owned:
            if isnull(v):
                continue
            ctx.expect(v in gone or v in held, key + ':leak', where, 'memory owned by a series is never released')

    def early(self, w):
        """source and target may be the same object: everything is read before anything is changed"""
        s, ctx = self.s, self.ctx
        changed = False
        for i in w.instrs():
            if i.op == 'store' and ptr_parts(s.info[i.id]['ptr'])[0] in (self.this, self.other):
                changed = True
            elif i.is_call and i.short in NEW.values():
                changed = True
            elif i.op == 'load' and ptr_parts(s.info[i.id]['ptr'])[0] is self.other and changed:
                # re-reading a position that was just copied onto itself is harmless only before releasing
                ctx.bad(self.key + ':self', i.where, 'assigning a series to itself is not excluded before it is changed')
                return

    # ------------------------------------------------------------ values of copies
    def faithful(self, w):
        ctx, s, f, lay = self.ctx, self.s, self.f, self.lay
        key, o = self.key, self.other
        where = f.blocks[w.path[-1]].term.where
        for a in POS:
            off = lay.ts.off[a]
            ctx.expect(self.exit(w, self.this, off, 'i32') is self.entry(o, off, 'i32'), key + ':position', where,
                       'a copy does not have the position and length of its source')
        own = self.flag(w, self.entry(o, lay.owner, 'i8'))
        now = self.flag(w, self.exit(w, self.this, lay.owner, 'i8'))
        ctx.expect(now is own, key + ':owner', where, 'a copy does not hold its values in the way its source does')
        d, e = self.exit(w, self.this, lay.data, 'ptr'), self.entry(o, lay.data, 'ptr')
        n = self.entry(o, lay.ts.off['getLength'], 'i32')
        if not own:
            ctx.expect(d is e, key + ':refers', where, 'a copy does not refer to the values of its source')
        elif d is e:
            ctx.expect(self.moves, key + ':shares', where, 'a copy shares the values of its source')
        else:
            ctx.expect(self.copied(w, d, e, n), key + ':values', where, 'a copy does not receive all the values of its source')
        if self.moves or not self.ctor:
            # what is left behind can be read safely
            od = self.exit(w, o, lay.data, 'ptr')
            if od is not e:
                k = self.exit(w, o, lay.ts.off['getLength'], 'i32')
                ctx.expect(od is not NULL or k is const(0), key + ':left', where, 'a series without values still claims a length')
        if not self.moves:
            for off, ty in [(lay.data, 'ptr'), (lay.owner, 'i8')] + [(lay.ts.off[a], 'i32') for a in POS]:
                v = self.exit(w, o, off, ty)
                ctx.expect(v is self.entry(o, off, ty), key + ':source', where, 'copying changes the source')

    def copied(self, w, d, e, n):
        """d is a new array of n values with all of those at e"""
        s, f = self.s, self.f
        if d.op != 'new':
            return False
        sites = [i for i in w.instrs() if i.is_call and s.vals.get(i.id) is d]
        eight = mkpoly({m: 8 * c for m, c in poly(n).items()})
        if len(sites) != 1 or w.res(s.info[sites[0].id]['args'][0]) is not eight:
            return False
        full = False
        for i in w.instrs():
            if i.is_call and (i.dem or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
                a = [w.res(x) for x in s.info[i.id]['args'][:3]] if s.info.get(i.id, {}).get('args') else [w.res(s.val(x)) for x in i.ops[:3]]
                if a[0] is d:
                    full = a[1] is e and a[2] is eight
            elif i.is_call and i.short in ('std::copy', 'std::copy_n'):
                a = [w.res(x) for x in s.info[i.id]['args'][:3]]
                if i.short == 'std::copy' and a[2] is d:
                    full = a[0] is e and a[1] is ptr_add(e, poly(eight))
                elif i.short == 'std::copy_n' and a[2] is d:
                    full = a[0] is e and a[1] is n
        if full:
            return True
        for h in f.loops:
            if h not in w.set:
                continue
            for r in ranges(s, h):
                if r.lo is not const(0) or w.res(r.hi) is not n or r.step != 1 or r.early:
                    continue
                its = iterations(s, h)
                ok = bool(its)
                for v, b in its:
                    q = [(s.info[i.id]['ptr'], s.info[i.id]['val']) for i in v.instrs() if i.op == 'store']
                    off = {(r.atom,): 8}
                    ok = ok and any(v.res(w.res(p)) is ptr_add(d, off) and place(w.res(x)) is ptr_add(e, off) for p, x in q)
                if ok:
                    return True
        return False

    def untouched(self, w):
        """assigning a series to itself leaves it as it was"""
        ctx, s, f = self.ctx, self.s, self.f
        bad = [i for i in w.instrs() if i.op == 'store' and ptr_parts(s.info[i.id]['ptr'])[0] in (self.this, self.other) or
               i.is_call and i.short in NEW.values()]
        ctx.expect(not bad, self.key + ':self', f.blocks[w.path[-1]].term.where, 'assigning a series to itself changes it')

    def fresh(self, w):
        """a series made from values or from a length"""
        ctx, s, f, lay = self.ctx, self.s, self.f, self.lay
        where = f.blocks[w.path[-1]].term.where
        x = {a: self.exit(w, self.this, lay.ts.off[a], 'i32') for a in POS}
        own = self.flag(w, self.exit(w, self.this, lay.owner, 'i8'))
        d = self.exit(w, self.this, lay.data, 'ptr')
        key = self.key
        ints = [a for a in self.args if a.args[2] == 'i32']
        ptrs = [a for a in self.args if a.args[2] == 'ptr']
        span = mkpoly(padd(poly(x['getEnd']), poly(x['getStart']), -1))
        ctx.expect(span is x['getLength'], key + ':span', where, 'length, start and end of a new series do not agree')
        if len(ints) == 3:
            ctx.expect([x['getIndex'], x['getStart'], x['getEnd']] == ints, key + ':position', where, 'a new series is not at the position asked for')
        elif len(ints) == 1:
            ctx.expect([x['getIndex'], x['getStart'], x['getLength']] == [const(0), const(0), ints[0]], key + ':position', where,
                       'a new series does not have the length asked for')
        if ptrs:
            ctx.expect(own is False and d is ptrs[0], key + ':refers', where, 'a series made from existing values does not just refer to them')
        else:
            n = mkpoly({m: 8 * c for m, c in poly(x['getLength']).items()})
            site = [i for i in w.instrs() if i.is_call and s.vals.get(i.id) is d and d.op == 'new']
            ok = own is True and len(site) == 1 and w.res(s.info[site[0].id]['args'][0]) is n and x['getStart'] is const(0)
            ctx.expect(ok, key + ':own', where, 'a series made from a length does not own values of that length')


def equality(ctx, lay, f, s):
    pr = Prover(s)
    this = s.argByName['this']
    other = [a for a in s.argT if a is not this][0]
    E = lambda o, off, ty: mk('ld', lay.at(o, off), ty, ())
    n1, n2 = (E(o, lay.ts.off['getLength'], 'i32') for o in (this, other))
    b1, b2 = (E(o, lay.ts.off['getStart'], 'i32') for o in (this, other))
    d1, d2 = (E(o, lay.data, 'ptr') for o in (this, other))
    samelen = eq0(padd(poly(n1), poly(n2), -1))

    def close(w, i):
        """the values at position i agree on this way"""
        a = mk('ld', ptr_add(d1, padd({(b1,): 8}, {(i,): 8})), 'double', ())
        b = mk('ld', ptr_add(d2, padd({(b2,): 8}, {(i,): 8})), 'double', ())
        for x in w.facts:
            pos = x.op != 'not'
            y = x if pos else x.args[0]
            if y.op != 'fcmp':
                continue
            r = y.args[0]
            p, q = y.args[1], y.args[2]
            if {p, q} == {a, b} and (r in ('oeq',) and pos or r == 'une' and not pos):
                return True
            for u, c, rel in ((p, q, r), (q, p, r.translate(str.maketrans('lg', 'gl')))):
                if c.op == 'fconst' and u.op == 'fabs' and u.args[0].op == 'fsub' and set(u.args[0].args) == {a, b} and float(c.args[0]) <= 1e-6:
                    if rel in ('olt', 'ole') and pos or rel in ('uge', 'ugt') and not pos:
                        return True
        return False
    def flags(w, h):
        return [a for a in header_phis(s, h) if (a.isbool or s.minc[a]['entry'].isbool) and w.truth(a if a.isbool else neg_(eq0({(a,): 1})))]

    def flagged(w):
        """a flag that is still set after a loop that only goes on while it is set was set before it"""
        fs = list(w.facts)
        for h in f.loops:
            if h in w.set:
                its = iterations(s, h)
                for a in flags(w, h):
                    if all(v.truth(a if a.isbool else neg_(eq0({(a,): 1}))) for v, _ in its):
                        s.cond_facts(s.asbool(s.minc[a]['entry']), True, fs)
        return Walk(s, w.path, list(dict.fromkeys(fs)), w.m)

    def still(w, h, v, e):
        """the iteration v, as far as the flags known at the end of w can still be set after it"""
        fs = list(v.facts)
        for a in flags(w, h):
            x = v.res(s.asbool(s.minc[a][e]))
            if v.truth(x) is False:
                return []
            s.cond_facts(x, True, fs)
        return alternatives(s, Walk(s, v.path, list(dict.fromkeys(fs)), v.m))
    n = 0
    for w, b, _ in walks(s, 0):
        t = f.blocks[b].term
        if t.op != 'ret':
            continue
        v = w.val(s.val(t.ops[0]))
        if v is const(0) or v.op == 'bool' and not v.args[0]:
            continue
        if v.isbool and w.truth(v) is False:
            continue
        n += 1
        ctx.count('ways to call two series equal')
        if not ctx.expect(v.op in ('int', 'const') or v.isbool and w.truth(v) is True, 'equal:decides', t.where, 'equality does not come from comparing the values'):
            continue
        w = flagged(w)
        ctx.expect(w.has(samelen), 'equal:length', t.where, 'series of different lengths can compare equal')
        peqs = [x for x in w.facts if x.op == 'peq' and set(x.args) in ({d1, d2}, {this, other})]
        if peqs and (w.has(eq0(padd(poly(b1), poly(b2), -1))) or set(peqs[0].args) == {this, other}):
            continue
        ok = False
        for h in f.loops:
            if h not in w.set or loops_of(f, h) != [h]:
                continue
            its = iterations(s, h)
            for k in header_phis(s, h):
                if s.minc[k]['entry'] is const(0) and its and all(v.val(s.minc[k][e]) is add(k, const(1)) for v, e in its) and \
                        all(pr.le(n1, k, x.facts) for x in alternatives(s, w)):
                    ok |= all(close(x, k) for v, e in its for x in still(w, h, v, e))
        ctx.expect(ok, 'equal:values', t.where, 'series can compare equal without all their values having been compared')
    ctx.expect(n > 0, 'equal:never', f.where, 'no series ever compare equal')


def run(ctx):
    p, fs = members(ctx)
    lay = Layout(ctx, fs)
    eq = 0
    kinds = set()
    for f, s in fs:
        m = Member(ctx, lay, f, s)
        m.run()
        if (m.ctor or m.assign) and m.other is not None:
            kinds.add((m.ctor, m.moves))
        if m.name == 'operator==':
            equality(ctx, lay, f, s)
            eq += 1
    ctx.require(eq, 'series are no longer compared')
    ctx.require(kinds, 'a series is no longer copied by functions of its own')
    # nothing is copied by the default, which would copy the addresses of the arrays
    head = '#include <type_traits>\n#include "%s"\n' % fs[0][0].file.replace('.cpp', '.hpp').split('/repo/')[-1].split('genex/', 1)[-1]
    ctx.require(build.accepts(head + 'static_assert(std::is_class<%s>::value, "");' % TS), 'the series class cannot be compiled on its own')
    for q in ('copy', 'move_constructor', 'assign', 'move_assign'):
        ctx.expect(build.accepts(head + 'static_assert(!__has_trivial_%s(%s), "");' % (q, TS)), 'default:' + q,
                   'genex/TimeSeries.hpp', 'series are copied or moved by copying the addresses of their arrays')
        ctx.count('kinds of copies')
