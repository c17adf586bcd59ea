"""Member lists of a group: how members are linked, and loops that follow the links."""
from . import api
from .lib import *
from .loops import exits, edge_cond
from .walk import header_phis

POS = r'^genex::(TimeSeriesSet|TimeSeries)::'


class Links:
    """layout of the member list, taken from where a member is added"""

    def __init__(self, ctx, strict=True):
        p = ctx.prog(plan([r'^%s::addMember\(' % GRP], [POS]))
        f = ctx.one(p, GRP + '::addMember')
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        self.s, self.f = s, f
        ints = [a for a in s.argT if a.args[2] == 'i32']
        ctx.require(len(ints) == 2, 'a member is no longer added by two coordinates')
        idx, start = ints
        this = s.argByName['this']
        self.idx, self.start, self.this = idx, start, this
        self.last = self.prev = self.mark = None
        self.stores = [(i, s.info[i.id]['ptr'], s.info[i.id]['val']) for i in f.instrs() if i.op == 'store']
        # end of the list: field that receives the index
        last = {ptr_parts(q)[1].get((), 0) for i, q, v in self.stores if ptr_parts(q)[0] is this and v is idx}
        ctx.require(len(last) == 1, 'the end of the member list is not kept in one field')
        self.last = last.pop()
        tabs = [(i, q, v) for i, q, v in self.stores if ptr_parts(q)[0].op == 'elem']
        ctx.require(tabs, 'a member is no longer entered in a table')
        self.table = ptr_parts(tabs[0][1])[0].args[0]
        self.entries = tabs
        self.pos = ptr_parts(tabs[0][1])[0].args[1]
        old = mk('ld', ptr_add(this, {(): self.last} if self.last else {}), 'i64', ())
        # offset in the entry that receives the old end
        prevs = set()
        for i, q, v in tabs:
            src = v
            if src.op in ('lo32',):
                src = src.args[0]
            pl = place(src)
            if pl is not None and ptr_parts(pl)[0] is this and ptr_parts(pl)[1].get((), 0) == self.last:
                prevs.add(ptr_parts(q)[1].get((), 0))
        if not prevs and len({ptr_parts(q)[1].get((), 0) for i, q, v in tabs}) > 1:
            ctx.bad('chain:link', tabs[0][0].where, 'a member added is not linked to the one before it')
        ctx.require(len(prevs) == 1, 'the previous member is not kept in the entry of a member')
        self.prev = prevs.pop()
        toff = ptr_parts(place(self.table) if place(self.table) is not None else self.table)[1].get((), 0)
        self.table_off = toff
        rows = [m for m in poly(self.pos) if len(m) == 2]
        ctx.require(len(rows) == 1, 'the position of a member in the table is no longer computed from its row')
        row = [x for x in rows[0] if x is not idx]
        ctx.require(len(row) == 1 and place(row[0]) is not None, 'the row length of the member table is not kept in a field')
        self.row_off = ptr_parts(place(row[0]))[1].get((), 0)

    def position(self, s, i, j, like):
        """position of member (i, j) in the table, as computed in function s"""
        return None


def field(t):
    """(root, offset) of the place a value was read from"""
    pl = place(t)
    if pl is None:
        return None, None
    r, o = ptr_parts(pl)
    return r, (o.get((), 0) if not set(o) - {()} else None)


def is_pos(lk, s, k, i, j):
    """k == i * row + j with the row length of this group"""
    d = {m: c for m, c in padd(poly(k), poly(j), -1).items() if c}
    if len(d) != 1:
        return False
    (m, c), = d.items()
    if c != 1 or len(m) != 2 or i not in m:
        return False
    row = m[0] if m[1] is i else m[1]
    return field(row) == (s.argByName.get('this'), lk.row_off)


def is_table(lk, s, v):
    return field(v) == (s.argByName.get('this'), lk.table_off)


def half(t, which):
    """first/second coordinate of a pair that may be held as one value"""
    return t


def chains(ctx, lk, s):
    """loops that follow the member list from its end: [(header, index, start)]"""
    this = s.argByName['this']
    out = []
    for h in s.fn.loops:
        ph = header_phis(s, h)
        for a in ph:
            r = s.minc[a]['entry']
            if not is_old(r, this, lk.last, 0):
                continue
            for b in ph:
                if b is a or not is_old(s.minc[b]['entry'], this, lk.last, 4):
                    continue
                ok = True
                for p, v in s.minc[a].items():
                    if p != 'entry':
                        ok = ok and is_link(lk, s, v, a, b, 0) and is_link(lk, s, s.minc[b].get(p, v), a, b, 4)
                if ok:
                    out.append((h, a, b))
    return out


def is_old(t, this, off, half_):
    """value of the list end: one half of the pair"""
    if t.op in ('lo32', 'hi32'):
        return field(t.args[0]) == (this, off) and (t.op == 'hi32') == (half_ == 4)
    return field(t) == (this, off + half_)


def is_link(lk, s, t, a, b, half_):
    if t.op in ('lo32', 'hi32'):
        if (t.op == 'hi32') != (half_ == 4):
            return False
        t, half_ = t.args[0], 0
    pl = place(t)
    if pl is None:
        return False
    r, o = ptr_parts(pl)
    return r.op == 'elem' and is_table(lk, s, r.args[0]) and is_pos(lk, s, r.args[1], a, b) and \
        not set(o) - {()} and o.get((), 0) == lk.prev + half_


def ends_only_at_end(s, h, a):
    """the loop is left only when the list has ended"""
    ex = exits(s, h)
    for b, n in ex:
        c = edge_cond(s, b, n)
        if c is None or c is not eq0({(a,): 1, (): 1}) and c is not le0({(a,): 1, (): 1}):
            return False
    return bool(ex)
