"""Cached envelopes always belong to the current values and band.

The envelope accessors of a series are flattened down to the routine that
computes envelopes.  On every way to return, an accessor either runs that
routine over exactly the current values (first value, length) with the band
asked for (cut to the length), into the two arrays the series holds afterwards,
and then records that band as valid, or has tested that the recorded state is
valid and that the recorded band equals the one asked for; lower and upper are
not exchanged.  The validity flag and the band are written nowhere else except
to invalidate.  Every other member function that replaces or adds to the values,
their position or the arrays leaves the flag cleared on every way to return
and wherever an allocation can fail.
"""
import re

from gx import api
from gx.lib import *
from gx.walk import walks
from gx.sym import neg_
from checks.c22 import members, Layout, Member, NEW, POS

RULE = 'typestate of the envelope cache: valid only directly after computing it from the current values and band'
ACC = ('getKeoghLower', 'getKeoghUpper')
LEMIRE = 'lower_upper_lemire'


def run(ctx):
    p, fs = members(ctx)
    lay = Layout(ctx, fs)
    acc = [(f, s) for f, s in fs if f.short.split('::')[-1] in ACC]
    ctx.require(len(acc) == 2, 'the envelopes of a series are not handed out by two accessors')
    c = Cache(ctx, lay, fs, acc)
    for f, s in acc:
        c.accessor(f, s)
    for f, s in fs:
        c.member(f, s)
    ctx.require(c.computed >= 2, 'envelopes are no longer computed')


class Cache:
    def __init__(self, ctx, lay, fs, acc):
        self.ctx, self.lay = ctx, lay
        self.computed = 0
        # fields: what an accessor tests on the ways on which it computes nothing
        flags, bands = [], []
        self.field = {}
        for f, s in acc:
            this = s.argByName['this']
            band = [a for a in s.argT if a.args[2] == 'i32']
            ctx.require(len(band) == 1, 'an envelope is no longer asked for with a band')
            fl, bd, ret = set(), set(), set()
            for w, b, n in walks(s, 0):
                v = w.val(s.val(f.blocks[b].term.ops[0]))
                if self.calls(w):
                    continue
                pl = place(v)
                if pl is not None and ptr_parts(pl)[0] is this:
                    ret.add(ptr_parts(pl)[1].get((), 0))
                x = self.tested(w, this, band[0])
                fl |= x[0]
                bd |= x[1]
            flags.append(fl)
            bands.append(bd)
            ctx.require(len(ret) == 1, 'an envelope accessor does not hand out a kept array')
            self.field[f.short.split('::')[-1]] = ret.pop()
        self.flag = flags[0] & flags[1]
        self.band = bands[0] & bands[1]
        self.known = len(self.flag) == 1 and len(self.band) == 1
        f0 = acc[0][0]
        ctx.expect(bool(self.flag), 'accessor:valid', f0.where, 'an envelope is handed out without testing that it is still valid')
        ctx.expect(bool(self.band), 'accessor:band', f0.where, 'an envelope is handed out without testing that it belongs to the band asked for')
        self.flag = min(self.flag) if self.flag else None
        self.band = min(self.band) if self.band else None

    def calls(self, w):
        return [i for i in w.instrs() if i.is_call and i.short == LEMIRE]

    def tested(self, w, this, band):
        fl, bd = set(), set()
        for x in w.facts:
            y = x.args[0] if x.op == 'not' else x
            if x.op == 'not' and y.op == 'eq0':
                for a in subterms(y):
                    if a.op == 'ld' and a.args[1] == 'i8' and ptr_parts(a.args[0])[0] is this:
                        fl.add(ptr_parts(a.args[0])[1].get((), 0))
            same = None
            if y.op == 'fcmp' and (x is y and y.args[0] == 'oeq' or x is not y and y.args[0] in ('une', 'one')):
                same = [y.args[1], y.args[2]]
                same = [z.args[0] if z.op == 'sitofp' else z for z in same]
            elif x is y and y.op == 'eq0':
                q = poly(y.args[0])
                if len(q) == 2 and sorted(q.values()) == [-1, 1] and all(len(m) == 1 for m in q):
                    same = [m[0] for m in q]
            if same and band in same:
                o = [z for z in same if z is not band]
                if o and o[0].op == 'ld' and ptr_parts(o[0].args[0])[0] is this:
                    bd.add(ptr_parts(o[0].args[0])[1].get((), 0))
        return fl, bd

    def accessor(self, f, s):
        ctx, lay = self.ctx, self.lay
        nm = f.short.split('::')[-1]
        this = s.argByName['this']
        band = [a for a in s.argT if a.args[2] == 'i32'][0]
        m = Member(ctx, lay, f, s)
        for w, b, n in walks(s, 0):
            t = f.blocks[b].term
            ctx.count('ways to hand out an envelope')
            cs = self.calls(w)
            v = w.val(s.val(t.ops[0]))
            if not cs:
                fl, bd = self.tested(w, this, band)
                ctx.expect(self.flag in fl, nm + ':valid', t.where, 'an envelope is handed out without testing that it is still valid')
                ctx.expect(self.band in bd, nm + ':band', t.where, 'an envelope is handed out without testing that it belongs to the band asked for')
                pl = place(v)
                ctx.expect(pl is lay.at(this, self.field[nm]), nm + ':array', t.where, 'another array than the envelope is handed out')
                continue
            self.computed += 1
            if not ctx.expect(len(cs) == 1, nm + ':once', t.where, 'envelopes are computed more than once'):
                continue
            a = s.info[cs[0].id]['args']
            self.routine(f, s, w, cs[0], m, band)
            lo, up = (w.res(x) for x in a[3:5])
            mine = lo if nm == ACC[0] else up
            pv = place(v)
            got = v is mine or pv is not None and pv is lay.at(this, self.field[nm])
            ctx.expect(got, nm + ':array', t.where, 'the envelope handed out is not the one just computed')
            for x, q in ((ACC[0], lo), (ACC[1], up)):
                st = api.state_before(s, cs[0])
                ctx.expect(w.res(s.peek(st, lay.at(this, self.field[x]), 'ptr')) is q, nm + ':kept', cs[0].where,
                           'lower and upper envelope are not computed into their own array')
            self.recorded(s, w, this, band, nm, t)

    def recorded(self, s, w, this, band, nm, t):
        """after computing: valid, for this band"""
        ctx, lay = self.ctx, self.lay
        if self.flag is None or self.band is None:
            return
        st = s.outstate[w.path[-1]]
        fl = w.val(s.peek(st, lay.at(this, self.flag), 'i8'))
        bs = [w.val(s.peek(st, lay.at(this, self.band), ty)) for ty in ('double', 'i32')]
        bs = [x.args[0] if x.op == 'sitofp' else x for x in bs]
        ok = fl is const(0) or band in bs
        ctx.expect(ok, nm + ':records', t.where, 'envelopes are recorded as belonging to another band than they were computed for')

    def routine(self, f, s, w, call, m, band):
        ctx, lay = self.ctx, self.lay
        a = [w.res(x) for x in s.info[call.id]['args']]
        this = s.argByName['this']
        st = api.state_before(s, call)
        d = w.res(s.peek(st, lay.at(this, lay.data), 'ptr'))
        b0 = w.res(s.peek(st, lay.at(this, lay.ts.off['getStart']), 'i32'))
        n = w.res(s.peek(st, lay.at(this, lay.ts.off['getLength']), 'i32'))
        key = m.name
        ctx.expect(a[0] is ptr_add(d, {(b0,): 8}), key + ':values', call.where, 'envelopes are not computed from the first current value on')
        ctx.expect(a[1] is n, key + ':length', call.where, 'envelopes are not computed for all current values')
        last = mkpoly(padd(poly(n), {(): -1}))
        r = a[2]
        pr = Prover(s)
        ok = r is band or r.op == 'min' and set(r.args) == {band, last} or r is last and pr.le(last, band, w.facts)
        ctx.expect(ok, key + ':asked', call.where, 'envelopes are not computed for the band asked for')

    def member(self, f, s):
        ctx, lay = self.ctx, self.lay
        if self.flag is None:
            return
        m = Member(ctx, lay, f, s)
        if m.dtor:
            return
        ctx.count('member functions')
        objs = m.objs()
        for w, b, n in walks(s, 0):
            t = f.blocks[b].term
            calls = self.calls(w)
            gen = [i for i in w.instrs() if i.is_call and i.short in NEW]
            for o in objs:
                if f.dem.endswith(' const') and o is not m.this:
                    continue
                if m.ctor and o is m.this:
                    fl = m.exit(w, o, self.flag, 'i8')
                    ctx.expect(fl is const(0), m.key + ':starts', t.where, 'a new series starts with envelopes that were never computed')
                    continue
                ch = self.changed(w, m, o)
                fl = m.exit(w, o, self.flag, 'i8')
                if ch and not (calls and o is m.this):
                    ctx.expect(fl is const(0) or m.flag(w, fl) is False, m.key + ':stale', t.where,
                               'envelopes computed earlier stay valid although the series changed')
                elif not ch:
                    e = m.entry(o, self.flag, 'i8')
                    ctx.expect(fl is e or fl is const(0) or m.flag(w, fl) is False or m.flag(w, e) is True or calls, m.key + ':revived', t.where,
                               'envelopes become valid without having been computed')
                if calls and o is m.this:
                    i = calls[-1]
                    self.order(s, w, m, o, i)
                # an allocation may fail: nothing valid then
                if o is m.this:
                    for i in gen:
                        st = api.state_before(s, i)
                        bad = [a for a in lay.arrays if w.res(s.peek(st, lay.at(o, a), 'ptr')) is not m.entry(o, a, 'ptr')]
                        if bad:
                            v = w.val(s.peek(st, lay.at(o, self.flag), 'i8'))
                            ctx.expect(v is const(0) or m.flag(w, v) is False, m.key + ':failing', i.where,
                                       'if this allocation fails, released envelopes still count as valid')
                            ctx.count('allocations that may fail')

    def order(self, s, w, m, o, call):
        """nothing the envelopes depend on changes after computing them"""
        seen = False
        for i in w.instrs():
            if i is call:
                seen = True
            elif seen and i.op == 'store':
                r, off = ptr_parts(s.info[i.id]['ptr'])
                off = off.get((), 0)
                dep = r is o and (off in [self.lay.data, self.lay.ts.off['getStart'], self.lay.ts.off['getLength']])
                self.ctx.expect(not dep, m.key + ':later', i.where, 'the series changes after its envelopes were computed')

    def changed(self, w, m, o):
        s, lay = self.ctx and m.s, self.lay
        for off, ty in [(lay.data, 'ptr'), (lay.ts.off['getStart'], 'i32'), (lay.ts.off['getLength'], 'i32')] + [(a, 'ptr') for a in lay.arrays]:
            if m.exit(w, o, off, ty) is not m.entry(o, off, ty):
                return True
        d = m.entry(o, lay.data, 'ptr')
        heads = [h for h in s.fn.loops if h in w.set]
        blocks = set(w.path) | {b for h in heads for b in s.fn.loops[h]}
        for b in blocks:
            for i in s.fn.blocks[b].ins:
                if i.op == 'store' and ptr_parts(s.info[i.id]['ptr'])[0] is d:
                    return True
                if i.is_call and (i.dem or '').startswith(('llvm.mem', 'mem')) and s.info.get(i.id, {}).get('args') and \
                        ptr_parts(s.info[i.id]['args'][0])[0] is d:
                    return True
        return False
