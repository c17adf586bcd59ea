"""In-memory form of the flattened functions written by gxir."""
from . import names


class Instr:
    __slots__ = ('d', 'id', 'op', 'ty', 'ops', 'blk', 'pos', 'fn', 'dem', 'short')

    def __init__(self, d, blk, pos, fn):
        self.d = d
        self.id = d['id']
        self.op = d['op']
        self.ty = d['ty']
        self.ops = d.get('ops', [])
        self.blk = blk
        self.pos = pos
        self.fn = fn
        self.dem = d.get('dem')
        self.short = names.short(self.dem) if self.dem else None

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def is_call(self):
        return self.op in ('call', 'invoke')

    @property
    def loc(self):
        l = self.d.get('loc')
        return (l[0], l[1]) if l else (self.fn.file, self.fn.line)

    @property
    def where(self):
        l = self.d.get('loc')
        if not l:
            return '%s:%s (%s)' % (self.fn.file, self.fn.line, self.fn.short)
        f = l[0]
        if l[1] == 0:
            return '%s (%s)' % (f, names.short(l[3]) if l[3] else self.fn.short)
        return '%s:%d (%s)' % (f, l[1], names.short(l[3]) if l[3] else self.fn.short)

    def __repr__(self):
        return '<%%%d %s %s>' % (self.id, self.op, self.short or '')


class Block:
    __slots__ = ('id', 'ins', 'succs', 'preds', 'fn')

    def __init__(self, i, fn):
        self.id = i
        self.ins = []
        self.succs = []
        self.preds = []
        self.fn = fn

    @property
    def term(self):
        return self.ins[-1]


class Func:
    @property
    def where(self):
        return '%s:%s (%s)' % (self.file, self.line, self.short)

    def __init__(self, d):
        self.d = d
        self.name = d['name']
        self.dem = d['dem']
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.short, self.params, self.is_const, _, _, _ = names.parse(self.dem)
        self.args = d['args']
        self.argnames = {}
        self.inlined = set(d['inlined'])
        sret = 1 if self.args and self.args[0]['sret'] else 0
        self.sret = bool(sret)
        for pos, nm in d['argnames']:
            self.argnames[nm] = pos - 1 + sret
        if sret:
            # 'this' precedes or follows the sret slot depending on the ABI: Itanium passes sret first
            pass
        self.blocks = []
        self.by_id = {}
        for bi, ins in enumerate(d['blocks']):
            b = Block(bi, self)
            for pos, x in enumerate(ins):
                i = Instr(x, bi, pos, self)
                b.ins.append(i)
                self.by_id[i.id] = i
            self.blocks.append(b)
        for b in self.blocks:
            t = b.term
            s = t.get('succ') or []
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            b.succs = seen
            for x in seen:
                self.blocks[x].preds.append(b.id)
        self._rpo()
        self._dom()
        self._loops()

    def instrs(self):
        for b in self.rpo:
            for i in self.blocks[b].ins:
                yield i

    def calls(self, short=None):
        for i in self.instrs():
            if i.is_call and (short is None or i.short == short):
                yield i

    def _rpo(self):
        seen, order = set(), []
        stack = [(0, iter(self.blocks[0].succs))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.rpo_no = {b: i for i, b in enumerate(self.rpo)}
        for b in self.blocks:
            b.preds = [p for p in b.preds if p in self.rpo_no]

    def _dom(self):
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.blocks[b].preds:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.dom_depth = {}
        for b in self.rpo:
            self.dom_depth[b] = 0 if b == 0 else self.dom_depth[idom[b]] + 1

    def _inter(self, idom, a, b):
        no = self.rpo_no
        while a != b:
            while no[a] > no[b]:
                a = idom[a]
            while no[b] > no[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        """block a dominates block b"""
        while self.dom_depth[b] > self.dom_depth[a]:
            b = self.idom[b]
        return a == b

    def i_dominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.blk == j.blk:
            return i.pos < j.pos
        return self.dominates(i.blk, j.blk)

    def edge_dominates(self, src, dst, b):
        """every path from the entry to b crosses the edge src->dst"""
        if self.blocks[dst].preds == [src]:
            return self.dominates(dst, b)
        # dst has other predecessors: the edge dominates only if all others are dominated by dst
        if not self.dominates(dst, b):
            return False
        return all(p == src or self.dominates(dst, p) for p in self.blocks[dst].preds) and \
            len([1 for s in self.blocks[src].succs if s == dst]) == 1

    def _loops(self):
        self.loops = {}  # header -> set of blocks
        for b in self.rpo:
            for s in self.blocks[b].succs:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(self.blocks[x].preds)
        self.loop_of = {}
        for h, body in sorted(self.loops.items(), key=lambda kv: -len(kv[1])):
            for x in body:
                self.loop_of.setdefault(x, []).append(h)  # outermost first

    def latches(self, h):
        return [p for p in self.blocks[h].preds if p in self.loops[h]]

    def loop_exits(self, h):
        """edges (from, to) leaving the loop, ordered"""
        body = self.loops[h]
        return [(b, s) for b in self.rpo if b in body for s in self.blocks[b].succs if s not in body]

    def reachable(self, start, avoid=()):
        seen, st = set(), [start]
        while st:
            x = st.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            st.extend(self.blocks[x].succs)
        return seen


class Program:
    def __init__(self, d):
        self.index = {f['name']: f for f in d.get('index', [])}
        self.globals = {g['name']: g for g in d.get('globals', [])}
        self.types = {t['name']: t for t in d.get('types', [])}
        self.funcs = {}
        for f in d['functions']:
            fn = Func(f)
            self.funcs[fn.name] = fn
        self.by_short = {}
        for fn in self.funcs.values():
            self.by_short.setdefault(fn.short, []).append(fn)

    def find(self, short):
        return self.by_short.get(short, [])
