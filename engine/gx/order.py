"""Comparison functions: what they answer for every relative order of the fields they look at."""
from itertools import product

from .lib import *
from .terms import subterms, TRUE, FALSE
from .walk import walks

NAN = float('nan')
REALS = (1.0, 2.0, float('inf'), NAN)
INTS = (0, 10, 20)


# comparison of several fields at once
COMPARE = [r'^std::(tuple|pair|__tuple_compare|_Tuple_impl|_Head_base)<', r'(^| )std::(tie|get|make_tuple|make_pair|__get_helper|operator[<>]=?)<',
           r'(^| )(bool|auto|constexpr bool) std::operator[<>]']


class Unclear(Exception):
    """the function looks at something else than the relative order of fields"""


class Order:
    """table of a comparison of two objects of one class; elements are the combinations of field values"""

    def __init__(self, s):
        self.s = s
        f = s.fn
        args = [a for a in s.argT if a.args[2] == 'ptr'][-2:]
        if len(args) != 2 or f.loops:
            raise Unclear('it does not simply compare two objects')
        self.args = args
        self.paths = []
        for w, b, n in walks(s, f.rpo[0]):
            if n is None:
                self.paths.append((w.facts, w.val(s.val(f.blocks[b].term.ops[0]))))
        if not self.paths:
            raise Unclear('it has no result')
        self.keys = []
        for fs, v in self.paths:
            for t in list(fs) + [v]:
                self.scan(t)
        self.keys.sort()
        self.elements = list(product(*[REALS if ty in ('double', 'float') else INTS for o, ty in self.keys]))
        self.less = [[self.answer(x, y) for y in self.elements] for x in self.elements]

    def key(self, t):
        """(side, field) of a value read from one of the objects"""
        if t.op != 'ld':
            return None
        r, o = ptr_parts(t.args[0])
        if r not in self.args or set(o) - {()}:
            return None
        return self.args.index(r), (o.get((), 0), t.args[1])

    def scan(self, t):
        for x in subterms(t):
            k = self.key(x)
            if k is not None and k[1] not in self.keys:
                self.keys.append(k[1])

    def answer(self, x, y):
        env = (x, y)
        for fs, v in self.paths:
            if all(self.truth(t, env) for t in fs):
                return self.truth(v, env)
        raise Unclear('no way through it fits')

    def num(self, t, env):
        k = self.key(t)
        if k is None:
            raise Unclear('it computes with something else than the fields of the two objects')
        return env[k[0]][self.keys.index(k[1])]

    def truth(self, t, env):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == 'int':
            return bool(t.args[0])
        if t.op == 'not':
            return not self.truth(t.args[0], env)
        if t.op == 'and':
            return self.truth(t.args[0], env) and self.truth(t.args[1], env)
        if t.op == 'sel':
            return self.truth(t.args[1 if self.truth(t.args[0], env) else 2], env)
        if t.op == 'eq0' and t.args[0].isbool:
            return not self.truth(t.args[0], env)
        if t.op in ('isnan', 'isinf', 'isfinite'):
            v = self.num(t.args[0], env)
            return v != v if t.op == 'isnan' else abs(v) == float('inf') if t.op == 'isinf' else v == v and abs(v) != float('inf')
        if t.op in ('le0', 'eq0'):
            p = poly(t.args[0])
            c = p.get((), 0)
            ms = [m for m in p if m]
            if all(len(m) == 1 and (m[0].isbool or m[0].op in ('isnan', 'isinf', 'isfinite')) for m in ms):
                v = sum(p[m] * self.truth(m[0], env) for m in ms) + c
                return v == 0 if t.op == 'eq0' else v <= 0
            if len(ms) != 2 or any(len(m) != 1 for m in ms) or sorted(p[m] for m in ms) != [-1, 1] or \
                    c not in ((0, 1) if t.op == 'le0' else (0,)) or self.mixed(ms[0][0], ms[1][0]):
                raise Unclear('it compares by more than the order of two fields')
            v = sum(p[m] * self.num(m[0], env) for m in ms) + c
            return v == 0 if t.op == 'eq0' else v <= 0
        if t.op == 'fcmp':
            pr, x, y = t.args
            if pr in ('uno', 'ord'):
                n = [z for z in (x, y) if z.op != 'fconst']
                r = any(v != v for v in (self.num(z, env) for z in n))
                return r == (pr == 'uno')
            if self.mixed(x, y):
                raise Unclear('it compares by more than the order of two fields')
            a, b = self.num(x, env), self.num(y, env)
            if a != a or b != b:
                return pr[0] == 'u'
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]]
        raise Unclear('its answer depends on something else than the order of fields')

    def mixed(self, x, y):
        """the two sides of a comparison are not the same field of the two objects"""
        a, b = self.key(x), self.key(y)
        if a is None or b is None:
            raise Unclear('it compares by more than the order of two fields')
        return a[1] != b[1] or a[0] == b[0]

    def flaws(self):
        """axioms of a strict weak order that fail, with an example"""
        n = len(self.elements)
        L = self.less
        out = {}
        rows = [sum(1 << j for j in range(n) if L[i][j]) for i in range(n)]
        cols = [sum(1 << i for i in range(n) if L[i][j]) for j in range(n)]
        tied = [~(rows[i] | cols[i]) & ((1 << n) - 1) for i in range(n)]
        for i in range(n):
            if L[i][i]:
                out.setdefault('an object is ranked before itself', (self.elements[i],))
            if rows[i] & cols[i]:
                j = low(rows[i] & cols[i])
                if j != i:
                    out.setdefault('two objects are each ranked before the other', (self.elements[i], self.elements[j]))
            for j in range(n):
                if L[i][j] and rows[j] & ~rows[i]:
                    out.setdefault('being ranked before is not transitive', (self.elements[i], self.elements[j], self.elements[low(rows[j] & ~rows[i])]))
                if tied[i] >> j & 1 and tied[j] & ~tied[i]:
                    out.setdefault('being ranked neither before nor after is not transitive',
                                   (self.elements[i], self.elements[j], self.elements[low(tied[j] & ~tied[i])]))
        return out


def low(b):
    return (b & -b).bit_length() - 1
