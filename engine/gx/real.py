"""Floating-point terms read as expressions over the real numbers, in a normal form that makes equal expressions equal.

An expression is a fraction of polynomials in atoms; roots, absolute values, maxima and minima of expressions are
atoms too, named by the normal form of what is inside.  Rounding is not considered.
"""
from fractions import Fraction
from math import isqrt

from .terms import poly


_ranks = {}


def rank(x):
    """text that is the same for equal names of atoms"""
    if not isinstance(x, (tuple, frozenset)):
        return repr(x)
    r = _ranks.get(x)
    if r is None:
        r = '(%s)' % ','.join(rank(y) for y in x) if isinstance(x, tuple) else '{%s}' % ','.join(sorted(rank(y) for y in x))
        _ranks[x] = r
    return r


class Real:
    __slots__ = ('num', 'den', '_key')

    def __init__(self, num, den=None):
        num = {m: c for m, c in num.items() if c}
        den = {(): Fraction(1)} if den is None else {m: c for m, c in den.items() if c}
        if not den:
            num, den = {(('?', '1/0'),): Fraction(1)}, {(): Fraction(1)}
        if num and len(num) == len(den):
            # one a multiple of the other
            m0 = min(den, key=rank)
            if m0 in num:
                k = num[m0] / den[m0]
                if all(num.get(m) == k * c for m, c in den.items()):
                    num, den = {(): k}, {(): Fraction(1)}
        # common factors of all terms
        common = None
        for m in list(num) + list(den):
            common = list(m) if common is None else shared(common, m)
        if num and common:
            num = {without(m, common): c for m, c in num.items()}
            den = {without(m, common): c for m, c in den.items()}
        if not num:
            den = {(): Fraction(1)}
        lead = den[min(den, key=rank)]
        if lead != 1:
            num = {m: c / lead for m, c in num.items()}
            den = {m: c / lead for m, c in den.items()}
        self.num, self.den = num, den
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = (frozenset(self.num.items()), frozenset(self.den.items()))
        return self._key

    def same(self, o):
        return minus(pmul(self.num, o.den), pmul(o.num, self.den)) == {}

    def __add__(self, o):
        o = lift(o)
        if self.den == o.den:
            return Real(plus(self.num, o.num), self.den)
        return Real(plus(pmul(self.num, o.den), pmul(o.num, self.den)), pmul(self.den, o.den))

    def __neg__(self):
        return Real({m: -c for m, c in self.num.items()}, self.den)

    def __sub__(self, o):
        return self + (-lift(o))

    def __mul__(self, o):
        o = lift(o)
        return Real(pmul(self.num, o.num), pmul(self.den, o.den))

    __rmul__ = __mul__
    __radd__ = __add__

    def __truediv__(self, o):
        o = lift(o)
        return Real(pmul(self.num, o.den), pmul(self.den, o.num))

    def atoms(self):
        out = set()

        def walk(x):
            if isinstance(x, tuple) and x and x[0] in ('sqrt', 'abs', 'max', 'min', 'floor'):
                for y in x[1:]:
                    deep(y)
            else:
                out.add(x)

        def deep(y):
            if isinstance(y, frozenset):
                for z in y:
                    deep(z)
            elif isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) and isinstance(y[1], Fraction):
                for a in y[0]:
                    walk(a)
            elif isinstance(y, tuple) and y and all(isinstance(z, frozenset) for z in y):
                for z in y:
                    deep(z)
            elif isinstance(y, tuple):
                walk(y)
        for p in (self.num, self.den):
            for m in p:
                for a in m:
                    walk(a)
        return out

    def __repr__(self):
        def side(p):
            return ' + '.join('%s%s' % ('' if c == 1 and m else str(c), '*'.join(name(a) for a in m)) for m, c in sorted(p.items(), key=lambda e: rank(e[0]))) or '0'
        return side(self.num) if self.den == {(): 1} else '(%s)/(%s)' % (side(self.num), side(self.den))


def name(a):
    if isinstance(a, tuple) and a and a[0] in ('sqrt', 'abs'):
        return '%s(..)' % a[0]
    return str(a)[:40]


def shared(xs, m):
    out, left = [], list(m)
    for x in xs:
        if x in left:
            left.remove(x)
            out.append(x)
    return out


def without(m, xs):
    left = list(m)
    for x in xs:
        left.remove(x)
    return tuple(left)


def lift(x):
    return x if isinstance(x, Real) else Real({(): Fraction(x)})


def plus(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def minus(a, b):
    return plus(a, b, -1)


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            for m, c in simplify(m1 + m2).items():
                r[m] = r.get(m, 0) + c * c1 * c2
    return {m: c for m, c in r.items() if c}


def simplify(m):
    """product of atoms: a root times itself is what is inside"""
    m = sorted(m, key=rank)
    for i in range(len(m) - 1):
        if m[i] == m[i + 1] and isinstance(m[i], tuple) and m[i][0] == 'sqrt':
            inner = dict(m[i][1])
            return pmul(inner, {tuple(m[:i] + m[i + 2:]): Fraction(1)})
        if m[i] == m[i + 1] and isinstance(m[i], tuple) and m[i][0] == 'abs':
            inner = dict(m[i][1])
            return pmul(pmul(inner, inner), {tuple(m[:i] + m[i + 2:]): Fraction(1)})
    return {tuple(m): Fraction(1)}


def atom(k):
    return Real({(k,): Fraction(1)})


def positive(a):
    return isinstance(a, tuple) and a and a[0] in ('sqrt', 'abs', 'count')


_known = []


class known:
    """expressions that are not negative while the block runs"""
    def __init__(self, xs):
        self.xs = list(xs)

    def __enter__(self):
        _known.append(self.xs)

    def __exit__(self, *_):
        _known.pop()


def sign(x):
    """1 if known to be at least 0, -1 if known to be at most 0, otherwise None"""
    for xs in _known:
        for y in xs:
            if len(y.num) != len(x.num):
                continue
            m = min(y.num, key=rank)
            for k in (1, -1):
                if x.same(y * k):
                    return k
            if m in x.num and y.num[m]:
                k = x.num[m] / y.num[m]
                if x.same(y * k):
                    return 1 if k > 0 else -1
    return None


def given(facts, leaf):
    """what the comparisons among some facts say: expressions that are not negative"""
    out = []
    for x in facts:
        pos = True
        if x.op == 'not':
            x, pos = x.args[0], False
        if x.op != 'fcmp':
            continue
        q = x.args[0][1:]
        if q not in ('lt', 'le', 'gt', 'ge'):
            continue
        d = real(x.args[1], leaf) - real(x.args[2], leaf)
        out.append(d if (q in ('gt', 'ge')) == pos else -d)
    return [d for d in out if d.num]


def absolute(x):
    k = sign(x) if _known else None
    if k:
        return x if k > 0 else -x

    def one(p):
        if set(p) <= {()}:
            return lift(abs(p.get((), Fraction(0))))
        if len(p) == 1:
            (m, c), = p.items()
            r = lift(abs(c))
            for a in m:
                r = r * (atom(a) if positive(a) else atom(('abs', frozenset({((a,), Fraction(1))}))))
            return r
        lead = p[min(p, key=rank)]
        k = abs(lead)
        q = {m: c / lead for m, c in p.items()}
        return atom(('abs', frozenset(q.items()))) * k
    r = one(x.num) / one(x.den)
    return lift(0) if _known and sign(r) == -1 else r


def root(x):
    def one(p):
        if not p:
            return lift(0)
        if len(p) == 1:
            (m, c), = p.items()
            r = lift(1)
            if c > 0 and isqrt(c.numerator) ** 2 == c.numerator and isqrt(c.denominator) ** 2 == c.denominator:
                r = lift(Fraction(isqrt(c.numerator), isqrt(c.denominator)))
            else:
                r = atom(('sqrt', frozenset({((), c)})))
            left = list(m)
            while left:
                a = left.pop()
                if a in left:
                    left.remove(a)
                    r = r * absolute(atom(a))
                else:
                    r = r * atom(('sqrt', frozenset({((a,), Fraction(1))})))
            return r
        return atom(('sqrt', frozenset(p.items())))
    return one(x.num) / one(x.den)


def plain(x):
    """a sum of products of things that are not negative"""
    return all(c > 0 and all(positive(a) for a in m) for p in (x.num, x.den) for m, c in p.items())


def extreme(kind, xs):
    """largest or smallest of some expressions"""
    out = {}
    drop = '-inf' if kind == 'max' else 'inf'
    for x in xs:
        if len(x.num) == 1 and x.den == {(): 1}:
            (m, c), = x.num.items()
            if m == (drop,) and c == 1:
                continue
            if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == kind and c == 1:
                for k in m[0][1]:
                    out[k] = None
                continue
        out[x.key] = None
    if not out:
        return atom(drop)
    vals = {k: Real(dict(k[0]), dict(k[1])) for k in out}
    for k in list(out):
        if len(out) == 1:
            break
        x = vals[k]
        others = [vals[o] for o in out if o != k]
        if kind == 'max' and set(x.num) <= {()} and x.num.get((), 0) <= 0 and any(plain(o) for o in others):
            del out[k]
        elif _known:
            want = 1 if kind == 'max' else -1
            if any(sign(o - x) == want for o in others):
                del out[k]
    if len(out) == 1:
        n, d = next(iter(out))
        return Real(dict(n), dict(d))
    return atom((kind, frozenset(out)))


def real(t, leaf):
    """normal form of a floating-point term; leaf(t) -> Real for terms that are known, None otherwise"""
    memo = {}

    def go(t):
        if t not in memo:
            memo[t] = step(t)
        return memo[t]

    def step(t):
        v = leaf(t)
        if v is not None:
            return v
        a = t.args
        if t.op == 'fconst':
            c = str(a[0])
            if c in ('inf', '-inf'):
                return atom(c)
            try:
                return lift(Fraction(c))
            except ValueError:
                return atom(('?', c))
        if t.op == 'fadd':
            return go(a[0]) + go(a[1])
        if t.op == 'fsub':
            return go(a[0]) - go(a[1])
        if t.op == 'fmul':
            return go(a[0]) * go(a[1])
        if t.op == 'fdiv':
            return go(a[0]) / go(a[1])
        if t.op == 'fneg':
            return -go(a[0])
        if t.op in ('fpext', 'sitofp', 'uitofp'):
            return whole(a[0]) if t.op != 'fpext' else go(a[0])
        if t.op == 'fabs':
            return absolute(go(a[0]))
        if t.op == 'sqrt':
            return roots(a[0])
        if t.op in ('fmax', 'fmin'):
            return extreme(t.op[1:], [go(x) for x in a])
        if t.op == 'pow' and a[1].op in ('fconst', 'sitofp'):
            e = go(a[1])
            if set(e.num) <= {()} and e.den == {(): 1}:
                c = e.num.get((), Fraction(0))
                x = go(a[0])
                if c == Fraction(1, 2):
                    return root(x)
                if c.denominator == 1 and 0 <= c <= 4:
                    r = lift(1)
                    for _ in range(int(c)):
                        r = r * x
                    return r
        if t.op == 'sel' and a[0].op in ('fcmp', 'not'):
            # absolute value written as a choice
            x, y = go(a[1]), go(a[2])
            c = a[0].args[0] if a[0].op == 'not' else a[0]
            if x.same(-y) and c.op == 'fcmp':
                l, r = go(c.args[1]), go(c.args[2])
                d = l - r
                neg_ = c.args[0][1:] in ('lt', 'le')
                if a[0].op == 'not':
                    neg_ = not neg_
                if c.args[0][1:] in ('lt', 'le', 'gt', 'ge'):
                    pos, other = (y, x) if neg_ else (x, y)   # value taken when l - r is positive
                    if pos.same(d):
                        return absolute(d)
        return atom(('?', t.uid))

    def roots(t):
        """root of a term, factor by factor"""
        if t.op == 'fmul' and t.args[0] is not t.args[1]:
            return roots(t.args[0]) * roots(t.args[1])
        if t.op == 'fdiv':
            return roots(t.args[0]) / roots(t.args[1])
        return root(go(t))

    def whole(t):
        """an integer term"""
        v = leaf(t)
        if v is not None:
            return v
        if t.op in ('max', 'min'):
            return extreme(t.op, [whole(x) for x in t.args])
        p = poly(t)
        if len(p) == 1 and list(p.items())[0] == ((t,), 1):
            if t.op == 'fptosi':
                return atom(('trunc', go(t.args[0]).key))
            return atom(('?', t.uid))
        r = lift(0)
        for m, c in p.items():
            x = lift(c)
            for y in m:
                x = x * whole(y)
            r = r + x
        return r
    return go(t) if not isinstance(t, tuple) else whole(t[0])
