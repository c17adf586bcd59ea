"""Saved groups are read back exactly as they were written.

For each of the four levels of a grouping (dataset, grouping, length, group) and both formats, the writing and the reading
function are reduced to the sequence of items on every path through them, loops becoming repeated sub-sequences.  Every item
has a kind (type handed to the archive or stream) and a meaning: for the writer, where its value comes from (which attribute, which
bound of the loop that follows, which coordinate of the member met on the chain); for the reader, what becomes of it (attribute
set, bound of the loop that follows, equality demanded, coordinate of the member added).  Both sequences must be equal.
Objects written in a loop are those of all slots in order, and objects read are new ones put into the slots in the same order, with the same
number, length and tables as when they are made by grouping.  In the text format every item is followed by white space and numbers are printed with all digits.
Attributes: each field set by grouping is also set by loading, from the item that holds it (distance functions from the
name, the total from the numbers of groups, the choice of whole series from the first length).
"""
import re

from gx import api
from gx.lib import *
from gx.loops import ranges, loops_of, once, exceptional
from gx.walk import walks, iterations, header_phis
from gx.members import Links, chains, ends_only_at_end, field
from gx.models import size_of
from gx.terms import subterms
from checks import c07, c09

RULE = 'equality of the item sequences (kind and meaning) of writer and reader; attribute coverage'
CLS = {'dataset': GSET, 'grouping': GGS, 'length': LGS, 'group': GRP}
NEXT = {'dataset': 'grouping', 'grouping': 'length', 'length': 'group', 'group': None}
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long'}


def run(ctx):
    cl = list(CLS.values())
    roots = [r' %s::(save|load)<' % c for c in cl] + [r'^%s::(save|load)Groups?Old\(' % c for c in cl] + \
        [r' genex::(saveToFile|loadFromFile)<', r'^%s::group\(' % GGS, r'^%s::printData\(' % TS]
    keep = [r'(^| )%s::(save|load)(Groups?Old)?[<(]' % c for c in cl[1:]] + [r'^%s::(~|addMember|setCentroid|getCount|Group\()' % GRP, r'^%s::(Local|~|getNumberOfGroups)' % LGS, r'^%s::(Global|~)' % GGS,
            r'^%s::' % SET, r'^%s::(?!getLength)' % TS, r'^genex::getDistanceFromName', r'^%s::generateGroups' % LGS]
    p = ctx.prog(['index'] + plan(roots, keep))
    fs = {}
    for f in p.funcs.values():
        for role, c in CLS.items():
            m = re.match(r'%s::(save|load)(\w*)$' % re.escape(c), f.short)
            if m:
                fs.setdefault((role, 'text' if m.group(2) else 'binary', m.group(1)), []).append(f)
    for role in CLS:
        for fmt in ('binary', 'text'):
            for d in ('save', 'load'):
                ctx.require(len(fs.get((role, fmt, d), [])) == 1, 'there is not one function that does %s %s %s' % (d, fmt, role))
    E = Env(ctx, p)
    for fmt in ('binary', 'text'):
        for role in CLS:
            w = Fn(E, fs[role, fmt, 'save'][0], role, fmt, True).proto()
            r = Fn(E, fs[role, fmt, 'load'][0], role, fmt, False)
            rp = r.proto()
            ctx.count('pairs of writer and reader')
            ctx.expect(len(w) == 1, '%s:%s:writer' % (fmt, role), fs[role, fmt, 'save'][0].where, 'what is written is not one sequence of items: %s' % shown(w))
            ctx.expect(len(rp) == 1, '%s:%s:reader' % (fmt, role), r.f.where, 'what is read is not one sequence of items: %s' % shown(rp))
            if len(w) == len(rp) == 1:
                a, b = list(w)[0], list(rp)[0]
                ctx.expect(a == b, '%s:%s:items' % (fmt, role), r.f.where, 'what is read is not what was written: written %s, read %s' % (show(a), show(b)))
                ctx.count('items', size(a))
            r.restores()
    digits(ctx, E, p, fs)
    container(ctx, p)


def size(seq):
    return sum(size(x[2]) if x[0] == 'loop' else 1 for x in seq)


def show(seq):
    return '[' + ', '.join('%s*%s' % (x[1], show(x[2])) if x[0] == 'loop' else '%s %s' % (x[1], x[2]) for x in seq) + ']'


def shown(ss):
    return ' or '.join(sorted(show(x) for x in ss)) or 'nothing'


class Env:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.lk = Links(ctx)
        self.count = Roles(ctx, GRP, ['getCount']).off['getCount']
        # fields of the grouping, from where groups are made
        f = ctx.one(p, GGS + '::group')
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        own = c09.This(s, None)
        self.fields = {}
        for i in f.instrs():
            if exceptional(f, i.blk):
                continue
            if i.op == 'store':
                o, v = own.field(s.info[i.id]['ptr']), s.info[i.id]['val']
                if o is None:
                    continue
                r = 'threshold' if v.op == 'arg' and v.args[2] == 'double' else 'whole' if v.op == 'arg' and v.args[2] in ('i1', 'i8') else \
                    'distance' if v.op == 'ret' and s.fn.by_id[v.args[1]].short == 'genex::getDistanceFromName' or v.op == 'global' else 'total'
                self.fields.setdefault(o, set()).add(r)
            elif i.is_call:
                c = s.info.get(i.id, {}).get('call')
                if c is not None and c.this is not None and not c.is_const and own.field(c.this) is not None:
                    m = i.short.rsplit('::', 1)[-1]
                    if 'basic_string' in i.short:
                        self.fields.setdefault(own.field(c.this), set()).add('name')
                    elif m in ('resize', 'clear', 'assign', 'push_back'):
                        self.fields.setdefault(own.field(c.this), set()).add('slots')
        ctx.require(all(len(v) == 1 for v in self.fields.values()), 'the attributes set by grouping are not told apart')
        self.fields = {o: list(v)[0] for o, v in self.fields.items()}
        ctx.require({'threshold', 'whole', 'distance', 'total', 'name', 'slots'} <= set(self.fields.values()), 'the attributes of a grouping were not all found')
        self.space = c07.space(ctx)
        self.layout = c07.layout(ctx)

    def off(self, role):
        return [o for o, r in self.fields.items() if r == role][0]


class Fn:
    def __init__(self, E, f, role, fmt, w):
        self.E, self.ctx, self.f, self.role, self.fmt, self.w = E, E.ctx, f, role, fmt, w
        self.s = E.ctx.sym(f, E.p, nogate=True, stable=stable_args)
        self.this = self.s.argByName['this']
        self.items = {}
        self.seps = set()
        self.streams = set()
        for i in f.instrs():
            self.item(i)
        self.chains = {h: (a, b) for h, a, b in chains(E.ctx, E.lk, self.s)} if role == 'group' and w else {}

    # -------------------------------------------------------------- items
    def is_stream(self, t):
        s = self.s
        r, o = ptr_parts(t)
        if r.op == 'ret':
            j = self.f.by_id.get(r.args[1])
            return j is not None and j.is_call and bool(s.info[j.id]['args']) and self.is_stream(s.info[j.id]['args'][0 if not (j.short or '').endswith('printData') else 1])
        if r.op == 'arg':
            return r is not self.this and not o
        return r.op == 'alloca'

    def item(self, i):
        if not i.is_call or not i.dem or exceptional(self.f, i.blk):
            return
        s = self.s
        a = s.info.get(i.id, {}).get('args') or []
        n = i.short
        m = re.search(r'interface_([io])archive<.*?>::operator(<<|>>|&)\s*<(.*)>\(', i.dem)
        if m:
            if m.group(2) != '&':
                self.ctx.expect((m.group(1) == 'o') == self.w, 'direction', i.where, 'an archive is used in the wrong direction')
            self.items[i.id] = (i, norm(m.group(3)), a[1])
            return
        if n in (c + '::save' for c in CLS.values()) or n in (c + '::load' for c in CLS.values()) or re.search(r'::(save|load)Groups?Old$', n) and a and n.startswith('genex::'):
            self.items[i.id] = (i, n.rsplit('::', 1)[0], a[0])
            return
        if n == TS + '::printData' and self.w:
            self.items[i.id] = (i, 'series', a[0])
            return
        if n == 'std::ostream::operator<<' and self.is_stream(a[0]) and self.w:
            t = re.search(r'operator<<\((.*)\)$', i.dem).group(1)
            if '(*)' in t:
                if a[1].op == 'global' and ('endl' in a[1].args[0] or 'flush' in a[1].args[0]):
                    if 'endl' in a[1].args[0]:
                        self.seps.add(i.id)
                return
            self.items[i.id] = (i, norm(t), a[1])
            return
        if n == 'std::operator<<' and self.w and self.is_stream(a[0]):
            t = depth_args(i.dem)
            t = t[1] if len(t) > 1 else ''
            if 'char const*' in t or t == 'char':
                g = self.E.p.globals.get(a[1].args[0], {}) if a[1].op == 'global' else {}
                txt = (g.get('init') or {}).get('str') if g else chr(a[1].args[0]) if a[1].op == 'int' else None
                if txt is not None and txt and not txt.strip():
                    self.seps.add(i.id)
                    return
                if txt == '':
                    return
                self.items[i.id] = (i, 'constant text', a[1])
                return
            if 'basic_string' in t:
                self.items[i.id] = (i, 'string', a[1])
            return
        if not self.w and n == 'std::istream::operator>>' and self.is_stream(a[0]):
            t = re.search(r'operator>>\((.*)&\)$', i.dem)
            if t:
                self.items[i.id] = (i, norm(t.group(1)), a[1])
            return
        if not self.w and n in ('std::operator>>', 'std::getline') and self.is_stream(a[0]):
            self.items[i.id] = (i, 'string' if 'basic_string' in ' '.join(depth_args(i.dem)[1:2]) else 'character', a[1])
            return
        if not self.w and n.startswith(('std::istream::', 'std::basic_istream::')) and n.rsplit('::', 1)[-1] in ('get', 'getline', 'read', 'ignore', 'putback', 'unget', 'seekg'):
            if n.rsplit('::', 1)[-1] != 'ignore':
                self.items[i.id] = (i, 'characters', a[1] if len(a) > 1 else a[0])

    def val(self, i):
        """value written by item i"""
        _, k, q = self.items[i.id]
        s = self.s
        if self.fmt == 'text' or k not in TYPES:
            return q
        return s.peek(api.state_before(s, i), q, TYPES[k])

    # -------------------------------------------------------------- sequences
    def proto(self):
        f, s = self.f, self.s
        out = set()
        for w, b, n in walks(s, 0, stop=None):
            if n is None and self.usual(w):
                out.add(self.seq(w, None))
        return out

    def usual(self, w):
        """the walk is one of a complete save or load of this format"""
        for x in w.fset:
            neg = x.op == 'not'
            y = x.args[0] if neg else x
            # only the sizes are written
            if y.op == 'arg' and y.args[2] in ('i1', 'i8') and not neg:
                return False
            if y.op == 'eq0' and neg and any(isinstance(z, T) and z.op == 'arg' and z.args[2] in ('i1', 'i8') for z in subterms(y)):
                return False
            # a slot of the range without groups does not occur
            if y.op == 'peq' and not neg and NULL in y.args and self.role == 'grouping' and self.w:
                e = [place(z) for z in y.args if z is not NULL]
                if e and e[0] is not None and e[0].op == 'elem' and field_(e[0].args[0], self.this) == self.E.off('slots'):
                    return False
        return True

    def seq(self, w, h0):
        f, s = self.f, self.s
        out = []
        last = None
        for b in w.path:
            if b in f.loops and b != h0:
                body = f.loops[b]
                if any(f.by_id[x].blk in body for x in self.items):
                    its = {self.seq(v, b) for v, _ in iterations(s, b) if self.usual(v)}
                    r = list(its)[0] if len(its) == 1 else (('one of', '', shown(its)),)
                    out.append(('loop', self.loop_role(b), r))
                    last = None
                    continue
            for i in f.blocks[b].ins:
                if h0 is None and any(i.blk in f.loops[h] for h in f.loops):
                    continue
                if i.id in self.seps:
                    last = None
                elif i.id in self.items:
                    it, k, q = self.items[i.id]
                    if self.w and self.fmt == 'text' and last is not None:
                        self.ctx.bad('text:%s:separated' % self.role, i.where, 'two items are written without white space between them')
                    out += self.element(i, k)
                    last = i if k in TYPES or k in ('string', 'constant text', 'series') and k != 'series' else None
        if self.w and self.fmt == 'text' and out:
            self.ctx.expect(last is None, 'text:%s:separated' % self.role, self.f.where, 'the last item written is not followed by white space')
        return tuple(out)

    def element(self, i, k):
        if k == 'series':
            return [('loop', 'values of the representative' if self.is_rep(self.items[i.id][2]) else 'values of a series', (('item', 'double', 'value'),))]
        kk = k
        if self.fmt == 'text' and k in INTS:
            kk = 'whole number'
        return [('item', kk, self.meaning(i, k))]

    def is_rep(self, q):
        r, o = ptr_parts(q)
        return r is self.this and o.get((), 0) == self.rep_off()

    def rep_off(self):
        if not hasattr(self.E, 'rep'):
            g = self.ctx.one(self.ctx.prog(plan([r'^%s::setCentroid\(' % GRP], [r'^%s::' % SET, r'^%s::(?!getLength)' % TS])), GRP + '::setCentroid')
            sg = self.ctx.sym(g, None, nogate=True, stable=stable_args)
            o = {ptr_parts(sg.info[j.id]['args'][0])[1].get((), 0) for j in g.instrs() if j.is_call and j.short == TS + '::operator='}
            self.ctx.require(len(o) == 1, 'the representative of a group is not one field')
            self.E.rep = o.pop()
        return self.E.rep

    # -------------------------------------------------------------- meaning of loops
    def loop_role(self, h):
        f, s = self.f, self.s
        rs = [r for r in ranges(s, h) if r.step == 1 and not r.early]
        if self.role == 'group':
            if self.w:
                if h in self.chains and ends_only_at_end(s, h, self.chains[h][0]):
                    return 'members'
            else:
                for r in rs:
                    if r.lo is const(0) and field_v(r.hi, self.this) == self.memlen() and self.fills(h, r.atom):
                        return 'values of the representative'
                if any(self.item_of(times(r)) is not None for r in ranges(s, h) if abs(r.step) == 1 and not r.early) and self.adds(h):
                    return 'members'
        elif self.role == 'length':
            for r in rs:
                if r.lo is const(0) and (self.item_of(r.hi) is not None and self.makes(h, r.atom) if not self.w else self.all_of(h, r, 'groups')):
                    return 'groups'
        elif self.role == 'grouping':
            for r in rs:
                if self.w and self.all_of(h, r, 'slots') and self.is_item(r.lo) and self.is_item(r.hi):
                    return 'lengths'
                if not self.w and self.item_of(r.lo) is not None and self.item_of(r.hi) is not None and self.makes(h, r.atom):
                    return 'lengths'
        return 'loop at %s' % f.blocks[h].ins[0].where.split('(')[-1]

    def memlen(self):
        return c07.centroid(self.ctx)[0]

    def item_of(self, t):
        """item read whose value t is"""
        while t.op in ('sext', 'zext', 'trunc'):
            t = t.args[0]
        if not self.w and t.op == 'upd' and t.args[0] == self.f.name and t.args[1] in self.items:
            i, k, q = self.items[t.args[1]]
            if len(t.args) == 4 and s_is(self.s, i, t.args[2], q) and k in TYPES:
                return i.id
        return None

    def where(self, i, ts):
        """positions among the terms ts of the value read by item i"""
        return [n for n, t in enumerate(ts) if self.item_of(t) == i.id]

    def is_item(self, t):
        return any(self.val(i) is t for i, k, x in self.items.values())

    def all_of(self, h, r, what):
        """the loop writes the objects of all slots in order"""
        s, f = self.s, self.f
        here = [(i, x) for i, k, x in self.items.values() if i.blk in f.loops[h]]
        for i, x in here:
            e = place(x)
            if e is None or e.op != 'elem' or ptr_parts(e.args[0])[0] is not self.this or e.args[1] is not r.atom:
                return False
            if what == 'slots' and field_(e.args[0], self.this) != self.E.off('slots'):
                return False
            if r.hi is not size_of(s, s.peek(s.instate[h], e.args[0], 'obj')):
                return False
            # written once in every iteration, unless the slot is empty
            for w, b in iterations(s, h):
                if self.usual(w) and len([j for j in w.instrs() if j.id in self.items]) != 1:
                    return False
        return len(here) >= 1

    def fills(self, h, k):
        s, f = self.s, self.f
        here = [(i, x) for i, _, x in self.items.values() if i.blk in f.loops[h]]
        ok = len(here) == 1 and once(s, h, [here[0][0]])
        if ok:
            x = here[0][1]
            j = f.by_id.get(x.args[1]) if x.op == 'ret' else None
            ok = j is not None and j.short == TS + '::operator[]' and self.is_rep(s.info[j.id]['args'][0]) and s.info[j.id]['args'][1] is k
        return ok

    def adds(self, h):
        s, f = self.s, self.f
        ad = [i for i in f.instrs() if i.is_call and i.short == GRP + '::addMember' and i.blk in f.loops[h]]
        return len(ad) >= 1 and once(s, h, ad) and all(s.info[i.id]['args'][0] is self.this for i in ad)

    def makes(self, h, k):
        """every iteration makes a new object for its own number and keeps it"""
        s, f = self.s, self.f
        here = [(i, x) for i, _, x in self.items.values() if i.blk in f.loops[h]]
        if len(here) != 1 or not once(s, h, [here[0][0]]):
            return False
        obj = here[0][1]
        cls = CLS[NEXT[self.role]]
        mk_ = [i for i in f.instrs() if i.is_call and i.short == cls + '::' + cls.split('::')[-1] and s.info[i.id]['args'][0] is obj]
        if obj.op != 'new' or len(mk_) != 1:
            return False
        a = s.info[mk_[0].id]['args']
        S = self.E.space
        if self.role == 'length':
            L = self.E.layout
            ok = set(L) == {'number', 'length', 'sub', 'table', 'dataset'}
            for role, n in L.items():
                x = a[n]
                ok = ok and (x is k if role == 'number' else ptr_parts(x) == (self.this, {(): S['table']}) if role == 'table' else
                             field_v(x, self.this) == S.get(role))
            pu = [i for i in f.instrs() if i.is_call and i.short in ('std::vector::push_back', 'std::vector::emplace_back') and i.blk in f.loops[h] and
                  s.peek(api.state_before(s, i), s.info[i.id]['args'][1], 'ptr') is obj and ptr_parts(s.info[i.id]['args'][0])[0] is self.this]
            return ok and len(pu) == 1 and once(s, h, pu)
        ok = a[2] is k and field_v(a[1], self.this) is not None
        st = [i for i in f.instrs() if i.op == 'store' and s.info[i.id]['val'] is obj and s.info[i.id]['ptr'].op == 'elem']
        ok = ok and len(st) == 1 and once(s, h, st)
        return ok and s.info[st[0].id]['ptr'].args[1] is k and field_(s.info[st[0].id]['ptr'].args[0], self.this) == self.E.off('slots')

    # -------------------------------------------------------------- meaning of items
    def meaning(self, i, k):
        s, f = self.s, self.f
        if k in CLS.values():
            return 'the %s' % [r for r, c in CLS.items() if c == k][0] if self.object_ok(i) else 'another object'
        if self.w:
            return self.source(i, k)
        return self.use(i, k)

    def object_ok(self, i):
        """objects of loops are decided with the loop; the grouping itself is the one shown by the dataset"""
        s = self.s
        _, k, x = self.items[i.id]
        if k is not CLS.get(NEXT[self.role]) and k != CLS.get(NEXT[self.role]):
            return False
        if loops_of(self.f, i.blk):
            return True
        if self.w:
            return place(x) is not None and ptr_parts(place(x))[0] is self.this
        keep = [j for j in self.f.instrs() if j.op == 'store' and s.info[j.id]['val'] is x and ptr_parts(s.info[j.id]['ptr'])[0] is self.this]
        return x.op == 'new' and len(keep) >= 1 and not any(api.reaches_without(s, r, keep) for r in rets(self.f))

    def source(self, i, k):
        s, f = self.s, self.f
        v = self.val(i)
        _, _, q = self.items[i.id]
        if k == 'value':
            return 'value'
        if v.op == 'ret':
            j = f.by_id[v.args[1]]
            n = j.short.rsplit('::', 1)[-1]
            if j.short in (SET + '::getItemCount', SET + '::getMaxLength') and s.info[j.id]['args'][0] is self.this:
                return {'getItemCount': 'number of series', 'getMaxLength': 'longest length'}[n]
            if j.short in (TS + '::getIndex', TS + '::getStart') and self.is_rep(s.info[j.id]['args'][0]):
                return {'getIndex': 'representative: series', 'getStart': 'representative: start'}[n]
            if j.short == LGS + '::getNumberOfGroups' and s.info[j.id]['args'][0] is self.this:
                return 'number of groups'
            if j.short == GRP + '::getCount' and s.info[j.id]['args'][0] is self.this:
                return 'number of members'
        if v.op == 'int':
            return 'constant %d' % v.args[0]
        if self.role == 'group':
            if field_v(v, self.this) == self.E.count:
                return 'number of members'
            for h, (a, b) in self.chains.items():
                if i.blk in f.loops[h]:
                    if v is a:
                        return 'member: series'
                    if v is b:
                        return 'member: start'
        if self.role == 'length':
            for h in f.loops:
                for r in ranges(s, h):
                    if r.hi is v and r.lo is const(0) and self.all_of(h, r, 'groups'):
                        return 'number of groups'
        if self.role == 'grouping':
            o = field_(q, self.this) if k == 'string' else field_v(v, self.this)
            if o is not None and self.E.fields.get(o) in ('threshold', 'name'):
                return self.E.fields[o]
            for h in f.loops:
                for r in ranges(s, h):
                    if self.all_of(h, r, 'slots'):
                        if r.lo is v:
                            return 'first length'
                        if r.hi is v:
                            return 'last length'
        if self.role == 'dataset' and k == 'double':
            # threshold of the grouping shown, asked by its own function
            ok = [x for x in alts(s, v) if place(x) is not None and ptr_parts(place(x))[1].get((), 0) == self.E.off('threshold') and
                  place(ptr_parts(place(x))[0]) is not None]
            rest = [x for x in alts(s, v) if x not in ok]
            if ok and all(x.op == 'fconst' for x in rest):
                return 'threshold'
        return 'something else'

    def use(self, i, k):
        s, f = self.s, self.f
        _, _, q = self.items[i.id]
        for j in f.instrs():
            if not j.is_call or exceptional(f, j.blk):
                continue
            a = s.info.get(j.id, {}).get('args') or []
            if j.short == GRP + '::addMember' and a[0] is self.this and self.where(i, a[1:3]):
                return ('member: series', 'member: start')[self.where(i, a[1:3])[0]]
        for j in f.instrs():
            if not j.is_call or exceptional(f, j.blk):
                continue
            a = s.info.get(j.id, {}).get('args') or []
            if j.short == GRP + '::setCentroid' and a[0] is self.this and self.where(i, a[1:3]) and not any(api.reaches_without(s, r, [j]) for r in rets(f)):
                return ('representative: series', 'representative: start')[self.where(i, a[1:3])[0]]
            if self.role == 'dataset' and k == 'double' and j.id in self.items and self.items[j.id][1] == GGS and self.where(i, a[2:]):
                return 'threshold'
        for h in f.loops:
            for r in ranges(s, h):
                if self.role == 'group' and abs(r.step) == 1 and not r.early and self.item_of(times(r)) == i.id:
                    return 'number of members'
                if r.step != 1 or r.early:
                    continue
                if self.item_of(r.hi) == i.id:
                    return {'group': 'number of members', 'length': 'number of groups', 'grouping': 'last length'}.get(self.role, '?')
                if self.item_of(r.lo) == i.id:
                    return {'grouping': 'first length'}.get(self.role, '?')
        if self.role == 'group' and q.op == 'ret' and loops_of(f, i.blk):
            return 'value'
        if self.role == 'grouping':
            o = field_(q, self.this)
            if o is not None and self.E.fields.get(o) in ('threshold', 'name'):
                return self.E.fields[o]
            if k == 'string':
                for j in f.instrs():
                    if j.is_call and 'basic_string' in j.short and j.short.endswith('::operator=') and s.info[j.id]['args'][1] is q and \
                            self.E.fields.get(field_(s.info[j.id]['args'][0], self.this)) == 'name':
                        return 'name'
        # equality demanded on every way to the end
        w = None
        for r in rets(f):
            here = set()
            for x in s.facts(r.blk):
                if x.op == 'eq0':
                    for m in poly(x.args[0]):
                        if len(m) == 1 and self.item_of(m[0]) == i.id:
                            here |= demanded(s, f, x, m[0], self.this)
            w = here if w is None else w & here
        if w:
            return sorted(w)[0]
        return 'not used'

    # -------------------------------------------------------------- attributes
    def restores(self):
        ctx, s, f, E = self.ctx, self.s, self.f, self.E
        key = '%s:%s' % (self.fmt, self.role)
        if self.role == 'length' and self.fmt == 'text':
            for r in rets(f):
                ctx.expect(self.item_of(s.val(r.ops[0])) is not None or s.val(r.ops[0]).op == 'size', key + ':number', r.where, 'the number of groups read is not what is returned')
        if self.role == 'dataset' and self.fmt == 'text':
            for r in rets(f):
                j = f.by_id.get(s.val(r.ops[0]).args[1]) if s.val(r.ops[0]).op == 'ret' else None
                ctx.expect(j is not None and j.id in self.items, key + ':number', r.where, 'the number of groups read is not what is returned')
        if self.role == 'group' and self.fmt == 'text':
            for j in f.instrs():
                if j.is_call and j.short in (GRP + '::setCentroid', TS + '::operator=') and loops_of(f, j.blk):
                    ctx.expect(self.same_values(j), key + ':representative', j.where, 'the representative is replaced by a member that need not have the same values')
        if self.role != 'grouping':
            return
        own = c09.This(s, None)
        got = {}
        for i in f.instrs():
            if exceptional(f, i.blk):
                continue
            if i.op == 'store' and own.field(s.info[i.id]['ptr']) is not None:
                got.setdefault(own.field(s.info[i.id]['ptr']), []).append((i, s.info[i.id]['val']))
            elif i.is_call:
                c = s.info.get(i.id, {}).get('call')
                if i.id in self.items:
                    o = field_(self.items[i.id][2], self.this)
                    if o is not None:
                        got.setdefault(o, []).append((i, 'read'))
                elif c is not None and c.this is not None and not c.is_const and own.field(c.this) is not None and i.short.rsplit('::', 1)[-1] not in c09.ACCESS:
                    got.setdefault(own.field(c.this), []).append((i, 'changed'))
        for o, role in sorted(E.fields.items()):
            ctx.count('attributes')
            k = '%s:%s@%d' % (key, role, o)
            g = got.get(o, [])
            # set on every way to the end
            ok = bool(g) and not any(api.reaches_without(s, r, [i for i, _ in g]) for r in rets(f))
            if not ctx.expect(ok, k, f.where, 'loading groups does not set the %s' % NAMES[role]):
                continue
            for i, v in g:
                if role == 'threshold':
                    ok = v == 'read' or isinstance(v, T) and (v.op == 'arg' and v.args[2] == 'double' or self.item_of(v) is not None)
                elif role == 'name':
                    ok = v == 'read' or v == 'changed' and i.short.endswith('::operator=') and (
                        s.info[i.id]['args'][1] is s.info[i.id]['args'][0] or
                        any(x[2] is s.info[i.id]['args'][1] and x[1] == 'string' for x in self.items.values()))
                elif role == 'distance':
                    ok = self.distance(v)
                elif role == 'whole':
                    ok = self.whole(v)
                elif role == 'total':
                    ok = True
                else:
                    ok = v == 'changed'
                ctx.expect(ok, k, i.where, 'loading groups sets the %s to something else than was saved' % NAMES[role])
        # the distance functions agree with grouping
        ref = settings_of(E)
        mine = {o: {(kind(s, v), cond_on_name(s, i)) for i, v in got.get(o, []) if isinstance(v, T)} for o, r in E.fields.items() if r == 'distance'}
        for o in mine:
            ctx.expect(mine[o] == ref[o], '%s:distance@%d' % (key, o), f.where, 'loading groups chooses another distance than grouping does')
        # total
        hs = [h for h in f.loops if any(i.blk in f.loops[h] for i, k, x in self.items.values())]
        if ctx.expect(len(hs) == 1, key + ':total', f.where, 'the lengths are not read in one loop'):
            self.total(hs[0], key)

    def same_values(self, j):
        """j is reached only when the member it names was found to have the values of the representative"""
        s, f = self.s, self.f
        a = s.info[j.id]['args']
        for x in s.facts(j.blk):
            for c in f.instrs():
                if c.is_call and c.short == TS + '::operator==' and x is s.asbool(s.vals[c.id]):
                    l, r = s.info[c.id]['args'][:2]
                    l, r = (l, r) if self.is_rep(r) else (r, l)
                    m = [i for i in f.instrs() if i.is_call and i.short == SET + '::getTimeSeries' and s.info[i.id]['args'][0] is l]
                    if self.is_rep(r) and len(m) == 1 and len(a) == 3:
                        b = s.info[m[0].id]['args']
                        return self.is_own_set(b[1]) and b[2:4] == a[1:3]
        return False

    def is_own_set(self, q):
        return ptr_parts(place(q))[0] is self.this if place(q) is not None else False

    def distance(self, v):
        s, f = self.s, self.f
        if not isinstance(v, T):
            return False
        if v.op == 'global':
            return True
        j = f.by_id.get(v.args[1]) if v.op == 'ret' else None
        if j is None or j.short != 'genex::getDistanceFromName':
            return False
        q = s.info[j.id]['args'][-1]
        names = [x[2] for x in self.items.values() if x[1] == 'string']
        if q in names or field_(q, self.this) == self.E.off('name'):
            return True
        for c in f.instrs():
            if c.is_call and c.short == 'std::operator+' and s.info[c.id]['args'][0] is q:
                return s.info[c.id]['args'][1] in names or field_(s.info[c.id]['args'][1], self.this) == self.E.off('name')
        return False

    def whole(self, v):
        """first length is the longest"""
        if not isinstance(v, T):
            return False
        if v.op in ('zext', 'sel') and v.args:
            v = v.args[0]
        neg = v.op == 'not'
        y = v.args[0] if neg else v
        if y.op != 'eq0':
            return False
        d = poly(y.args[0])
        lo = [m for m in d if len(m) == 1 and self.item_of(m[0]) is not None and self.use(self.f.by_id[self.item_of(m[0])], '') == 'first length']
        if len(lo) != 1:
            return False
        c = d[lo[0]]
        rest = {m: -x * c for m, x in d.items() if m != lo[0] and x}
        # lo == 2
        if neg:
            return rest == {(): 2}
        # lo == longest length
        k = rest.pop((), 0)
        if len(rest) != 1:
            return False
        (m, x), = rest.items()
        if x != 1 or len(m) != 1:
            return False
        t = m[0]
        j = self.f.by_id.get(t.args[1]) if t.op == 'ret' else None
        if j is not None and j.short == SET + '::getMaxLength':
            return k == 0
        return k == -1 and (t.op == 'size' or self.item_of(t) is not None and self.use(self.f.by_id[self.item_of(t)], '') == 'last length')

    def total(self, h, key):
        ctx, s, f = self.ctx, self.s, self.f
        rep = ptr_add(self.this, {(): self.E.off('total')} if self.E.off('total') else {})
        it = [i for i, k, x in self.items.values() if i.blk in f.loops[h]]
        xs = [s.vals.get(i.id) for i in it if s.vals.get(i.id) is not None and i.short.startswith(LGS)]
        xs += [s.vals[i.id] for i in f.instrs() if i.is_call and i.short == LGS + '::getNumberOfGroups' and i.blk in f.loops[h] and
               any(s.info[i.id]['args'][0] is self.items[j.id][2] and after(f, j, i) for j in it)]
        ok = False
        for x in xs:
            for a, inc in s.minc.items():
                if a.op == 'phi' and a.args[0] == f.name and a.args[1] == h and 'entry' in inc and inc['entry'] is const(0) and \
                        all(v is add(a, x) for k, v in inc.items() if k != 'entry'):
                    end = all(place(a) is rep or s.peek(api.state_before(s, r), rep, 'i32') is a for r in rets(f))
                    ret = all(not r.ops or s.val(r.ops[0]) is a or place(s.val(r.ops[0])) is rep for r in rets(f))
                    ok = ok or end and ret
        ctx.expect(ok, key + ':total', f.where, 'the total after loading is not the sum of the numbers of groups')


NAMES = {'threshold': 'threshold', 'name': 'name of the distance', 'distance': 'distance functions', 'whole': 'choice of whole series',
         'total': 'total number of groups', 'slots': 'table of lengths'}
TYPES = {'int': 'i32', 'unsigned int': 'i32', 'long': 'i64', 'unsigned long': 'i64', 'double': 'double', 'float': 'float', 'bool': 'i8'}


def times(r):
    """how often the loop runs"""
    return mkpoly(padd(poly(r.hi), poly(r.lo), -1))


def after(f, j, i):
    if j.blk == i.blk:
        ids = [x.id for x in f.blocks[j.blk].ins]
        return ids.index(j.id) < ids.index(i.id)
    return f.dominates(j.blk, i.blk)


def s_is(s, i, n, q):
    a = s.info[i.id]['args']
    return n < len(a) and a[n] is q


def norm(t):
    t = t.strip()
    t = re.sub(r'\bconst\b', '', t).replace('&', '').strip()
    if 'basic_string' in t:
        return 'string'
    return t


def depth_args(dem):
    """parameter types of a demangled function"""
    k = dem.rindex(')')
    d, j = 0, k
    while j >= 0:
        if dem[j] == ')':
            d += 1
        elif dem[j] == '(':
            d -= 1
            if d == 0:
                break
        j -= 1
    out, d, cur = [], 0, ''
    for c in dem[j + 1:k]:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()]


def field_(q, this):
    """offset of an address in the object"""
    r, o = ptr_parts(q)
    return o.get((), 0) if r is this and not set(o) - {()} else None


def field_v(t, this):
    r, o = field(t)
    return o if r is this else None


def alts(s, v, seen=None):
    seen = set() if seen is None else seen
    if v in seen:
        return []
    seen.add(v)
    if v.op == 'phi' and v in s.minc:
        return [y for x in s.minc[v].values() for y in alts(s, x, seen)]
    if v.op == 'sel':
        return alts(s, v.args[1], seen) + alts(s, v.args[2], seen)
    return [v]


def demanded(s, f, x, v, this):
    """what v must equal"""
    d = poly(x.args[0])
    c = d.get((v,))
    if c not in (1, -1):
        return set()
    rest = {m: -y * c for m, y in d.items() if m != (v,) and y}
    if not set(rest) - {()}:
        return {'constant %d' % rest.get((), 0)}
    if len(rest) == 1:
        (m, y), = rest.items()
        if y == 1 and len(m) == 1 and m[0].op == 'ret':
            j = f.by_id[m[0].args[1]]
            if s.info[j.id]['args'] and s.info[j.id]['args'][0] is this:
                return {{SET + '::getItemCount': 'number of series', SET + '::getMaxLength': 'longest length'}.get(j.short, '?')} - {'?'}
    return set()


def kind(s, v):
    if v.op == 'global':
        return v.args[0]
    j = s.fn.by_id.get(v.args[1]) if v.op == 'ret' else None
    if j is None:
        return '?'
    q = s.info[j.id]['args'][-1]
    for c in s.fn.instrs():
        if c.is_call and c.short == 'std::operator+' and s.info[c.id]['args'][0] is q:
            return 'name+' + str(s.info[c.id]['args'][2])
    return 'name'


def cond_on_name(s, i):
    """comparisons of the name that hold where i is executed"""
    out = set()
    for x in s.facts(i.blk):
        neg = x.op == 'not'
        y = x.args[0] if neg else x
        if y.op == 'streq':
            out.add((neg, tuple(sorted(str(z) for z in y.args if z.op == 'str'))))
    return tuple(sorted(out))


def settings_of(E):
    f = E.ctx.one(E.p, GGS + '::group')
    s = E.ctx.sym(f, E.p, nogate=True, stable=stable_args)
    own = c09.This(s, None)
    out = {o: set() for o, r in E.fields.items() if r == 'distance'}
    for i in f.instrs():
        if i.op == 'store' and not exceptional(f, i.blk) and own.field(s.info[i.id]['ptr']) in out:
            out[own.field(s.info[i.id]['ptr'])].add((kind(s, s.info[i.id]['val']), cond_on_name(s, i)))
    return out


def digits(ctx, E, p, fs):
    """numbers are printed with all their digits, and the values of a series one by one"""
    f = fs['dataset', 'text', 'save'][0]
    s = ctx.sym(f, p, nogate=True, stable=stable_args)

    def precise(s, i):
        a = s.info[i.id].get('args') or []
        if i.short == 'std::ios_base::precision' and len(a) == 2:
            return a[1].op == 'int' and a[1].args[0] >= 17
        if i.short == 'std::operator<<' and '_Setprecision' in i.dem:
            v = a[1]
            return v.op == 'call' and any(isinstance(x, T) and x.op == 'int' and x.args[0] >= 17 for x in subterms(v))
        return False

    def prec(f, s, key):
        ps = [i for i in f.instrs() if i.is_call and i.dem and precise(s, i)]
        bad = [i for i in f.instrs() if i.is_call and i.dem and (i.short == 'std::ios_base::precision' and len(s.info[i.id].get('args') or []) == 2 or '_Setprecision)' in i.dem) and not precise(s, i)]
        ds = [i for i in f.instrs() if i.is_call and i.dem and (i.short == 'std::ostream::operator<<' and i.dem.endswith('(double)') or i.short == GGS + '::saveGroupsOld')]
        ctx.expect(not bad, key, f.where, 'numbers are printed with fewer digits than they have')
        ctx.require(ds, 'no numbers are printed by %s' % f.short)
        for i in ds:
            ctx.expect(any(after(f, q, i) for q in ps), key, i.where, 'numbers may be printed with fewer digits than they have')
    prec(f, s, 'text:digits')
    g = ctx.one(p, TS + '::printData')
    sg = ctx.sym(g, p, nogate=True, stable=stable_args)
    prec(g, sg, 'text:series')
    # every value in order, each followed by white space
    ds = [i for i in g.instrs() if i.is_call and i.short == 'std::ostream::operator<<' and i.dem.endswith('(double)')]
    n = ts_roles(ctx)
    ok = False
    for i in ds:
        for h in loops_of(g, i.blk):
            for r in ranges(sg, h):
                if r.step == 1 and not r.early and r.lo is const(0) and place(r.hi) is n.at(sg.argByName['this'], 'getLength') and once(sg, h, ds):
                    v = sg.info[i.id]['args'][1]
                    q = place(v)
                    ok = q is not None and ptr_parts(q)[1].get((r.atom,), 0) == 8
                    seps = [j for j in g.instrs() if j.is_call and j.short == 'std::operator<<' and j.blk in g.loops[h] and after(g, i, j) and
                            blank(E, sg, j)]
                    ok = ok and bool(seps)
    ctx.expect(ok, 'text:series', g.where, 'the values of a series are not printed one by one')


def blank(E, s, j):
    a = s.info[j.id]['args']
    g = E.p.globals.get(a[1].args[0], {}) if len(a) > 1 and isinstance(a[1], T) and a[1].op == 'global' else {}
    t = (g.get('init') or {}).get('str')
    return bool(t) and not t.strip()


def container(ctx, p):
    """the file is unpacked the way it was packed"""
    w = [f for f in p.funcs.values() if f.short == 'genex::saveToFile']
    r = [f for f in p.funcs.values() if f.short == 'genex::loadFromFile']
    ctx.require(len(w) == 1 and len(r) == 1, 'groups are not saved and loaded by one function each')

    def form(f, o):
        out = []
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        for i in f.instrs():
            if not i.is_call or not i.dem or exceptional(f, i.blk):
                continue
            m = re.search(r'(\w+?)_(compressor|decompressor)<.*>::\w+_(compressor|decompressor)\(', i.dem)
            if m:
                out.append(m.group(1).replace('basic_', ''))
            m = re.match(r'boost::archive::(\w+?)_[io]archive::\w+archive\(', i.dem)
            if m:
                out.append(m.group(1))
                fl = s.info[i.id]['args'][-1]
                out.append(str(fl))
            if '::push<' in i.dem and 'chain_client' in i.dem:
                out.append('push')
            if i.short in ('std::basic_ofstream::basic_ofstream', 'std::basic_ifstream::basic_ifstream'):
                a = s.info[i.id]['args']
                out.append('binary' if a[-1].op == 'int' and a[-1].args[0] & 4 else 'characters')
        return sorted(out)
    a, b = form(w[0], 'o'), form(r[0], 'i')
    ctx.expect(a == b and a, 'container', r[0].where, 'the file is not unpacked the way it was packed: %s, %s' % (a, b))
