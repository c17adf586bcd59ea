"""Goal-directed proofs of linear (and mildly non-linear) integer inequalities from branch facts."""
from .terms import T, mk, poly, mkpoly, padd, pmul, le0, const, subterms
from .sym import neg_


def subst(t, a, b, memo=None):
    """polynomial term t with atom a replaced by term b (only at polynomial level)"""
    r = {}
    for m, k in poly(t).items():
        p = {(): k}
        for x in m:
            p = pmul(p, poly(b) if x is a else {(x,): 1})
        r = padd(r, p)
    return mkpoly(r)


def psubst(p, a, b):
    r = {}
    pb = poly(b)
    for m, k in p.items():
        q = {(): k}
        for x in m:
            q = pmul(q, pb if x is a else {(x,): 1})
        r = padd(r, q)
    return {m: c for m, c in r.items() if c}


class Prover:
    def __init__(self, sym, axioms=None):
        self.sym = sym
        self.axioms = axioms      # callable: atom -> list of polynomials <= 0
        self.stack = []
        self.nn = set()

    # ---------------------------------------------------------------- facts
    def expand(self, facts):
        """branch facts -> (list of polynomials <= 0, list of disequalities)"""
        le, ne, ult = [], [], []
        todo = list(facts)
        while todo:
            f = todo.pop()
            if f.op == 'le0':
                le.append(poly(f.args[0]))
            elif f.op == 'eq0':
                p = poly(f.args[0])
                le.append(p)
                le.append({m: -c for m, c in p.items()})
            elif f.op == 'and':
                todo.extend(f.args)
            elif f.op == 'not' and f.args[0].op == 'eq0':
                ne.append(poly(f.args[0].args[0]))
            elif f.op in ('ult', 'ule'):
                ult.append((f.args[0], f.args[1], f.op == 'ult', True))
            elif f.op == 'not' and f.args[0].op in ('ult', 'ule'):
                g = f.args[0]
                ult.append((g.args[0], g.args[1], g.op == 'ult', False))
        # disequalities that sharpen a bound
        for p in ne:
            for s in (1, -1):
                q = {m: s * c for m, c in p.items()}
                if self.lin(q, le, 2):
                    le.append(padd(q, {(): 1}))
                    break
        for a, b, strict, pos in ult:
            pa, pb = poly(a), poly(b)
            if pos:
                if self.nonneg(b) or self.lin({m: -c for m, c in pb.items()}, le, 3):
                    le.append(padd(padd(pa, pb, -1), {(): 1 if strict else 0}))
                    le.append({m: -c for m, c in pa.items()})
            else:
                # not (a <u b): b <=u a ; strict -> b <= a, else b < a
                if self.nonneg(a) or self.lin({m: -c for m, c in pa.items()}, le, 3):
                    le.append(padd(padd(pb, pa, -1), {(): 0 if strict else 1}))
                    le.append({m: -c for m, c in pb.items()})
        return le, ne

    def nonneg(self, t):
        return self.sym.nonneg(t)

    def atom_facts(self, atoms):
        out = []
        seen = set()
        todo = list(atoms)
        while todo:
            a = todo.pop()
            if a.uid in seen:
                continue
            seen.add(a.uid)
            if a.op in ('size', 'count', 'strlen', 'zx'):
                out.append({(a,): -1})
            elif a.op == 'min':
                for x in a.args:
                    out.append(padd({(a,): 1}, poly(x), -1))
            elif a.op == 'max':
                for x in a.args:
                    out.append(padd(poly(x), {(a,): 1}, -1))
            elif a.op == 'iabs':
                for k in (1, -1):
                    out.append(padd({(a,): -1}, poly(a.args[0]), k))
            elif a.op in ('sdiv', 'udiv') and a.args[1].op == 'int' and a.args[1].args[0] > 0:
                c = a.args[1].args[0]
                if self.nonneg(a.args[0]):
                    out.append({(a,): -1})
                    out.append(padd({(a,): c}, poly(a.args[0]), -1))
            elif a.op in ('srem', 'urem') and a.args[1].op == 'int' and a.args[1].args[0] > 0:
                c = a.args[1].args[0]
                out.append({(a,): 1, (): -(c - 1)})
                out.append({(a,): -1, (): -(c - 1) if a.op == 'srem' and not self.nonneg(a.args[0]) else 0})
            elif a.op == 'phi' and a in self.sym.minc:
                inc = self.sym.minc[a]
                if 'entry' in inc:
                    up = down = True
                    for p, v in inc.items():
                        if p == 'entry':
                            continue
                        d = self.delta(v, a)
                        if d is None:
                            up = down = False
                        else:
                            up = up and d[0] >= 0
                            down = down and d[1] <= 0
                    if up:
                        out.append(padd(poly(inc['entry']), {(a,): 1}, -1))
                    if down:
                        out.append(padd({(a,): 1}, poly(inc['entry']), -1))
            if self.axioms:
                out.extend(self.axioms(a))
        return out

    def delta(self, v, a, depth=0):
        """(min, max) of v - a over the ways v can be reached, or None"""
        d = padd(poly(v), {(a,): 1}, -1)
        if not d:
            return (0, 0)
        if set(d) == {()}:
            return (d[()], d[()])
        if depth > 4:
            return None
        if v.op == 'sel':
            x, y = self.delta(v.args[1], a, depth + 1), self.delta(v.args[2], a, depth + 1)
            return None if x is None or y is None else (min(x[0], y[0]), max(x[1], y[1]))
        if v.op == 'phi' and v in self.sym.minc and v is not a:
            rs = []
            for p, u in self.sym.minc[v].items():
                if u is v:
                    continue
                du = padd(poly(u), {(v,): 1}, -1)
                if set(du) <= {()} and p != 'entry' and 'entry' in self.sym.minc[v]:
                    k = du.get((), 0)
                    rs.append((0 if k >= 0 else -10**9, 0 if k <= 0 else 10**9))
                    continue
                r = self.delta(u, a, depth + 1)
                if r is None:
                    return None
                rs.append(r)
            lo = min(r[0] for r in rs)
            hi = max(r[1] for r in rs)
            return (lo, hi)
        return None

    # ---------------------------------------------------------------- search
    def lin(self, p, le, depth):
        p = {m: c for m, c in p.items() if c}
        if not p or set(p) == {()}:
            return p.get((), 0) <= 0
        if depth == 0:
            return False
        # try to eliminate one monomial
        for m, c in sorted(((m, c) for m, c in p.items() if m != ()), key=lambda mc: (-len(mc[0]), tuple(a.uid for a in mc[0]))):
            for f in le:
                k = f.get(m)
                if k and (k > 0) == (c > 0):
                    q = {}
                    for mm, cc in p.items():
                        q[mm] = q.get(mm, 0) + abs(k) * cc
                    for mm, cc in f.items():
                        q[mm] = q.get(mm, 0) - abs(c) * cc
                    if self.lin(q, le, depth - 1):
                        return True
        return False

    def products(self, p, le):
        """multiply facts by factors known to be non-negative so that products in the goal can be bounded"""
        out = []
        mons = [m for m in p if len(m) == 2]
        for f in list(le):
            mons += [m for m in f if len(m) == 2]
        done = set()
        for m in mons:
            for a, b in (m, m[::-1]):
                if (a.uid, b.uid) in done:
                    continue
                done.add((a.uid, b.uid))
                if self.nonneg(b) or self.lin({(b,): -1}, le, 3):
                    for f in le:
                        if (a,) in f and all(len(x) <= 1 for x in f):
                            out.append(pmul(f, {(b,): 1}))
        return out

    def prove(self, p, facts, depth=5, ind=2, alt=4):
        """p <= 0 under the facts?  p: polynomial dict"""
        if self.prove1(p, facts, depth, ind):
            return True
        if alt <= 0:
            return False
        # alternatives among the facts
        for k, f in enumerate(facts):
            if f.op == 'not' and f.args[0].op == 'and':
                a, b = f.args[0].args
                rest = [g for g in facts if g is not f]
                l, r = [], []
                self.sym.cond_facts(a, False, l)
                self.sym.cond_facts(a, True, r)
                self.sym.cond_facts(b, False, r)
                return self.case(p, rest, l, depth, ind, alt - 1) and self.case(p, rest, r, depth, ind, alt - 1)
        return False

    def case(self, p, rest, new, depth, ind, alt):
        from .paths import contradiction
        fs = list(dict.fromkeys(rest + new))
        if contradiction(fs):
            return True
        return self.prove(p, fs, depth, ind, alt) or self.false(new, rest)

    def false(self, new, rest):
        """the new facts contradict the others"""
        le, _ = self.expand(rest)
        for f in new:
            if f.op == 'le0' and self.lin(padd({(): 1}, poly(f.args[0]), -1), le, 4):
                return True
        return False

    def prove1(self, p, facts, depth=5, ind=2):
        p = {m: c for m, c in p.items() if c}
        if not p or set(p) == {()}:
            return p.get((), 0) <= 0
        le, _ = self.expand(facts)
        atoms = {a for q in le + [p] for m in q for a in m}
        le = le + self.atom_facts(atoms)
        # atoms introduced by the atom facts themselves
        more = {a for q in le for m in q for a in m} - atoms
        le = le + self.atom_facts(more)
        # facts with 'ult' may become usable now
        le2, _ = self.expand_more(facts, le)
        le = le2
        if self.lin(p, le, depth):
            return True
        pr = self.products(p, le)
        if pr and self.lin(p, le + pr, depth + 1):
            return True
        # case splits
        for m in p:
            for a in m:
                c = p.get((a,), 0)
                if a.op == 'sel':
                    return self.prove(psubst(p, a, a.args[1]), list(facts) + [a.args[0]], depth, ind) and \
                        self.prove(psubst(p, a, a.args[2]), list(facts) + [neg_(a.args[0])], depth, ind)
                if a.op == 'iabs' and c > 0:
                    if all(self.prove(psubst(p, a, mkpoly({n: k * x for n, x in poly(a.args[0]).items()})), facts, depth, ind) for k in (1, -1)):
                        return True
                if a.op == 'min' and c < 0 or a.op == 'max' and c > 0:
                    if all(self.prove(psubst(p, a, x), facts, depth, ind) for x in a.args):
                        return True
        if ind > 0:
            # a loop that runs until a counter equals its bound: the counter cannot have passed it
            new = []
            for f in facts:
                if f.op != 'not' or f.args[0].op != 'eq0':
                    continue
                q0 = poly(f.args[0].args[0])
                if not any(a.op == 'phi' for m in q0 for a in m):
                    continue
                for sg in (1, -1):
                    q = {m: sg * c for m, c in q0.items()}
                    if self.prove(q, [g for g in facts if g is not f], depth, ind - 1):
                        new.append(padd(q, {(): 1}))
                        break
            if new and self.lin(p, le + new, depth):
                return True
            for m in p:
                for a in m:
                    if a.op == 'phi' and a in self.sym.minc and self.induct(p, a, facts, depth, ind - 1):
                        return True
        return False

    def expand_more(self, facts, le):
        out = list(le)
        for f in facts:
            pos = True
            g = f
            if f.op == 'not':
                g, pos = f.args[0], False
            if g.op in ('ult', 'ule'):
                a, b = g.args
                pa, pb = poly(a), poly(b)
                strict = g.op == 'ult'
                if pos and self.lin({m: -c for m, c in pb.items()}, out, 4):
                    out.append(padd(padd(pa, pb, -1), {(): 1 if strict else 0}))
                    out.append({m: -c for m, c in pa.items()})
                elif not pos and self.lin({m: -c for m, c in pa.items()}, out, 4):
                    out.append(padd(padd(pb, pa, -1), {(): 0 if strict else 1}))
                    out.append({m: -c for m, c in pb.items()})
            elif f.op == 'not' and g.op == 'eq0':
                p = poly(g.args[0])
                for s in (1, -1):
                    q = {m: s * c for m, c in p.items()}
                    if self.lin(q, out, 3):
                        out.append(padd(q, {(): 1}))
                        break
        return out, None

    def induct(self, p, a, facts, depth, ind):
        inc = self.sym.minc[a]
        blk = a.args[1]
        key = (a.uid, tuple(sorted((tuple(x.uid for x in m), c) for m, c in p.items())))
        if key in self.stack:
            return False
        self.stack.append(key)
        try:
            if 'entry' in inc:
                fn = self.sym.fn
                # the rest of the goal must not change in the loop
                body = fn.loops.get(blk, set())
                for m in p:
                    for x in m:
                        if x is not a and (x.defs & body):
                            return False
                hyp = le0(p)
                ent = [q for q in fn.blocks[blk].preds if q not in body]
                ef = self.sym.facts(ent[0]) if len(ent) == 1 else self.sym.facts(fn.idom[blk])
                ef = list(ef)
                if len(ent) == 1:
                    self.sym.edge_facts(ent[0], blk, ef) if self.sym.fn.edge_dominates(ent[0], blk, blk) else None
                if not self.prove(psubst(p, a, inc['entry']), ef, depth, ind):
                    return False
                for q, v in inc.items():
                    if q == 'entry':
                        continue
                    lf = list(self.sym.facts(q)) + [hyp]
                    if not self.prove(psubst(p, a, v), lf, depth, ind):
                        return False
                return True
            # ordinary merge: every incoming value, under the facts of its predecessor
            for q, v in inc.items():
                lf = list(self.sym.facts(q)) + [f for f in facts]
                if not self.prove(psubst(p, a, v), lf, depth, ind):
                    return False
            return True
        finally:
            self.stack.pop()

    # ------------------------------------------------------------ front ends
    def absurd(self, facts, **kw):
        """the facts contradict each other"""
        from .paths import contradiction
        if contradiction(list(facts)):
            return True
        le, _ = self.expand(facts)
        for p in le:
            if set(p) <= {()}:
                if p.get((), 0) > 0:
                    return True
                continue
            if self.prove(padd({(): 1}, p, -1), facts, **kw):
                return True
        return False

    def directed(self, facts):
        """facts with 'at least so far apart' turned into a direction where the other one is impossible"""
        out = list(facts)
        for n, f in enumerate(facts):
            if f.op != 'le0':
                continue
            q = poly(f.args[0])
            for m, c in q.items():
                if len(m) == 1 and m[0].op == 'iabs' and c < 0:
                    rest = [g for g in facts if g is not f]
                    alt = [psubst(q, m[0], mkpoly({x: k * y for x, y in poly(m[0].args[0]).items()})) for k in (1, -1)]
                    live = [z for z in alt if not self.prove1(padd({(): 1}, z, -1), rest, ind=0)]
                    if len(live) == 1:
                        out[n] = le0(live[0])
                    break
        return out

    def le(self, a, b, facts, **kw):
        return self.prove(padd(poly(a), poly(b), -1), facts, **kw)

    def lt(self, a, b, facts, **kw):
        return self.prove(padd(padd(poly(a), poly(b), -1), {(): 1}), facts, **kw)

    def ge0(self, a, facts, **kw):
        return self.prove({m: -c for m, c in poly(a).items()}, facts, **kw)

    def in_range(self, i, n, facts, **kw):
        """0 <= i < n"""
        return self.ge0(i, facts, **kw) and self.lt(i, n, facts, **kw)
