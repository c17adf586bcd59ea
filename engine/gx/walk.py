"""Ways through a loop body or a function: every acyclic path with the values and facts that hold on it."""
from . import api
from .loops import exceptional
from .paths import rewrite, contradiction
from .sym import neg_
from .terms import subterms, const, TRUE, FALSE


class Walk:
    """one path: blocks, facts known at its end, value of every merge on it"""

    def __init__(self, s, path, facts, m):
        self.s, self.path, self.facts, self.m = s, path, facts, m
        self.set = set(path)

    def truth(self, t):
        """True/False if the facts decide the condition t, else None"""
        fs = self.fset
        if t in fs or t is TRUE:
            return True
        if t is FALSE or neg_(t) in fs:
            return False
        if t.op == 'not':
            v = self.truth(t.args[0])
            return None if v is None else not v
        if t.op == 'eq0' and t.args[0].isbool:
            v = self.truth(t.args[0])
            return None if v is None else not v
        if t.op == 'and':
            x, y = self.truth(t.args[0]), self.truth(t.args[1])
            if x is False or y is False:
                return False
            return True if x and y else None
        return None

    def res(self, t):
        """t with every merge and decided conditional on the path resolved"""
        for _ in range(12):
            t = rewrite(t, self.m) if self.m else t
            sub = {}
            for x in subterms(t):
                if x.op == 'sel' and x.args[0].isbool:
                    v = self.truth(x.args[0])
                    if v is not None:
                        sub[x] = x.args[1 if v else 2]
            if not sub:
                break
            t = rewrite(t, sub)
        return t

    def val(self, t):
        """value of t at the end of the path"""
        t = self.res(t)
        if t.isbool:
            v = self.truth(t)
            if v is not None:
                return const(1) if v else const(0)
        return t

    @property
    def fset(self):
        if not hasattr(self, '_fs'):
            self._fs = set(self.facts)
        return self._fs

    def instrs(self):
        for b in self.path:
            yield from self.s.fn.blocks[b].ins

    def has(self, f):
        return f in self.fset


def walks(s, start, region=None, stop=None, limit=5000, facts=None, m0=None):
    """paths from block `start`; a path ends at an edge into a block accepted by stop, or at a return.
    region: blocks a path may pass (others are not entered unless they stop the path).
    m0: values of merges known beforehand.
    -> [(Walk, last block, next block or None)]"""
    fn = s.fn
    out = []
    work = [((start,), tuple(s.facts(start)) if facts is None else tuple(facts), tuple((m0 or {}).items()))]
    n = 0
    while work:
        path, fs, m = work.pop()
        n += 1
        if n > limit:
            raise OverflowError('too many paths')
        b = path[-1]
        t = fn.blocks[b].term
        if t.op == 'ret':
            out.append((Walk(s, path, list(fs), dict(m)), b, None))
            continue
        for nx in dict.fromkeys(fn.blocks[b].succs):
            if t.op == 'invoke' and t.get('succ')[1] == nx and t.get('succ')[0] != nx:
                continue
            if api.dead_edge(s, b, nx):
                continue
            nf = list(fs)
            md = dict(m)
            if t.op == 'br' and len(t.get('succ')) == 2 and t.get('succ')[0] != t.get('succ')[1]:
                c = s.asbool(s.val(t.ops[0]))
                w = Walk(s, path, nf, md)
                c = w.res(c)
                v = w.truth(c)
                if v is not None and v != (t.get('succ')[0] == nx):
                    continue
                s.cond_facts(c, t.get('succ')[0] == nx, nf)
                nf = list(dict.fromkeys(nf))
                if contradiction(nf):
                    continue
            if stop is not None and stop(b, nx):
                out.append((Walk(s, path, nf, md), b, nx))
                continue
            if nx in path or region is not None and nx not in region:
                continue
            if exceptional(fn, nx):
                continue
            # merges of the next block take the value of this edge
            for a, inc in s.minc.items():
                if a.args[0] == fn.name and a.args[1] == nx and 'entry' not in inc and b in inc:
                    md[a] = rewrite(inc[b], md) if md else inc[b]
            work.append((path + (nx,), tuple(nf), tuple(md.items())))
    return out


def alternatives(s, w):
    """the walk, once for each way its facts of the form `not both` can hold"""
    for f in w.facts:
        if f.op == 'not' and f.args[0].op == 'and':
            x, y = f.args[0].args
            rest = [g for g in w.facts if g is not f]
            tx, ty = Walk(s, w.path, rest, w.m).truth(x), Walk(s, w.path, rest, w.m).truth(y)
            if tx is False or ty is False:
                alts = [rest]
            else:
                alts = []
                if tx is None:
                    a = list(rest)
                    s.cond_facts(x, False, a)
                    alts.append(a)
                if ty is None:
                    a = list(rest)
                    s.cond_facts(x, True, a)
                    s.cond_facts(y, False, a)
                    alts.append(a)
            out = []
            for a in alts:
                a = list(dict.fromkeys(a))
                if not contradiction(a):
                    out += alternatives(s, Walk(s, w.path, a, w.m))
            return out
    return [w]


def iterations(s, h, limit=5000):
    """complete iterations of loop h: [(Walk, latch)]"""
    body = s.fn.loops[h]
    return [(v, b) for w, b, n in walks(s, h, body, lambda b, n: n == h or n not in body, limit) if n == h for v in alternatives(s, w)]


def leaves(s, h, limit=5000):
    """ways to leave loop h from its header, ordinary exits only: [(Walk, block, successor)]"""
    body = s.fn.loops[h]
    return [(v, b, n) for w, b, n in walks(s, h, body, lambda b, n: n == h or n not in body, limit)
            if n is None or n != h and not exceptional(s.fn, n) for v in alternatives(s, w)]


def header_phis(s, h):
    return [a for a, inc in s.minc.items() if a.op == 'phi' and a.args[0] == s.fn.name and a.args[1] == h and 'entry' in inc]


def constants(s, f=None):
    """merges of loop headers that keep their first value on every complete iteration: {merge: value}"""
    fn = s.fn
    m = {}
    cand = [(h, a) for h in fn.loops for a in header_phis(s, h) if s.minc[a]['entry'].op == 'int']
    for h in fn.loops:
        mine = [a for g, a in cand if g == h and (f is None or f(a))]
        if not mine:
            continue
        its = iterations(s, h)
        while True:
            # assume they are, and drop those an iteration changes
            bad = [a for a in mine for w, b in its
                   if rewrite(w.val(s.minc[a][b]), {x: s.minc[x]['entry'] for x in mine}) is not s.minc[a]['entry']]
            if not bad:
                break
            mine = [a for a in mine if a not in bad]
        for a in mine:
            m[a] = s.minc[a]['entry']
    return m
