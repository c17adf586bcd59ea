"""Hash-consed symbolic terms; integers are kept as polynomials over atoms."""

_tab = {}
_n = [0]
EMPTY = frozenset()


class T:
    __slots__ = ('op', 'args', 'uid', 'defs', 'isbool', 'note')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def mk(op, *args, blk=None):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.uid = _n[0]
        _n[0] += 1
        d = set()
        if blk is not None:
            d.add(blk)
        _coll(args, d)
        t.defs = frozenset(d) if d else EMPTY
        t.isbool = op in ('le0', 'eq0', 'ult', 'not', 'peq', 'fcmp', 'true', 'false')
        t.note = None
        _tab[key] = t
    return t


def _coll(args, d):
    for a in args:
        if isinstance(a, T):
            d |= a.defs
        elif isinstance(a, tuple):
            _coll(a, d)


def subterms(t, seen=None):
    """all subterms, t included"""
    if seen is None:
        seen = {}
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.uid in seen:
                continue
            seen[x.uid] = x
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen.values()


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


NULL = mk('null')
UNDEF = mk('undef')
TRUE = mk('true')
FALSE = mk('false')


def const(c):
    return mkpoly({(): int(c)})


def mkpoly(p):
    items = []
    c = 0
    for m, k in p.items():
        if k == 0:
            continue
        if m == ():
            c = k
        else:
            items.append((m, k))
    if not items:
        return mk('int', c)
    if c == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    items.sort(key=lambda mk_: tuple(a.uid for a in mk_[0]))
    return mk('poly', c, tuple(items))


def poly(t):
    if t.op == 'int':
        return {(): t.args[0]}
    if t.op == 'poly':
        d = {m: k for m, k in t.args[1]}
        if t.args[0]:
            d[()] = t.args[0]
        return d
    if t.op == 'true':
        return {(): 1}
    if t.op == 'false':
        return {(): 0}
    return {(t,): 1}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.uid))
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def add(a, b, k=1):
    return mkpoly(padd(poly(a), poly(b), k))


def mul(a, b):
    return mkpoly(pmul(poly(a), poly(b)))


def is_int(t):
    return t.op == 'int'


def ival(t):
    return t.args[0] if t.op == 'int' else None


def le0(p):
    """term for polynomial p <= 0"""
    p = {m: c for m, c in p.items() if c}
    if not p or set(p) == {()}:
        return TRUE if p.get((), 0) <= 0 else FALSE
    return mk('le0', mkpoly(p))


def eq0(p):
    p = {m: c for m, c in p.items() if c}
    if not p or set(p) == {()}:
        return TRUE if p.get((), 0) == 0 else FALSE
    ms = sorted((m for m in p if m != ()), key=lambda m: tuple(a.uid for a in m))
    if p[ms[0]] < 0:
        p = {m: -c for m, c in p.items()}
    return mk('eq0', mkpoly(p))


def neg(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'le0':
        # not (p <= 0)  <=>  1 - p <= 0
        return le0(padd({(): 1}, poly(t.args[0]), -1))
    if t.op == 'fcmp':
        inv = {'olt': 'uge', 'ole': 'ugt', 'oeq': 'une', 'ult': 'oge', 'ule': 'ogt', 'ueq': 'one',
               'one': 'ueq', 'une': 'oeq', 'uge': 'olt', 'ugt': 'ole', 'oge': 'ult', 'ogt': 'ule',
               'ord': 'uno', 'uno': 'ord'}
        return fcmp(inv[t.args[0]], t.args[1], t.args[2])
    return mk('not', t)


def fcmp(p, a, b):
    sw = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}
    if p in sw:
        p, a, b = sw[p], b, a
    if p in ('oeq', 'une', 'ueq', 'one', 'ord', 'uno') and b.uid < a.uid:
        a, b = b, a
    return mk('fcmp', p, a, b)


def ptr_add(p, off):
    """pointer term plus polynomial byte offset"""
    off = {m: c for m, c in off.items() if c}
    if not off:
        return p
    if p.op == 'ptr':
        return ptr_add(p.args[0], padd(poly(p.args[1]), off))
    return mk('ptr', p, mkpoly(off))


def ptr_parts(p):
    if p.op == 'ptr':
        return p.args[0], poly(p.args[1])
    return p, {}


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, depth + 1) for x in t) + ')'
        return str(t)
    if depth > 7:
        return '..'
    if t.op == 'int':
        return str(t.args[0])
    if t.op == 'arg':
        return str(t.args[1])
    if t.op == 'poly':
        s = []
        for m, k in t.args[1]:
            q = '*'.join(show(a, depth + 1) for a in m)
            s.append(q if k == 1 else '-' + q if k == -1 else '%s*%s' % (k, q))
        if t.args[0]:
            s.append(str(t.args[0]))
        return '(' + ' + '.join(s) + ')'
    if t.op == 'le0':
        return '[%s <= 0]' % show(t.args[0], depth + 1)
    if t.op == 'eq0':
        return '[%s == 0]' % show(t.args[0], depth + 1)
    if t.op == 'not':
        return '!' + show(t.args[0], depth + 1)
    if t.op == 'ptr':
        if t.note:
            return show(t.args[0], depth + 1) + '.' + t.note
        return show(t.args[0], depth + 1) + '+' + show(t.args[1], depth + 1)
    if t.op == 'ld':
        return '*' + show(t.args[0], depth + 1)
    if t.op == 'phi':
        k = t.args[2]
        return 'phi@%s.%s' % (t.args[1], '.'.join(show(x, depth + 1) for x in k[1:]))
    if t.op in ('new', 'ret', 'upd') and len(t.args) >= 2:
        return '%s%%%s' % (t.op, t.args[1])
    if t.op == 'alloca':
        return 'alloca%%%s' % t.args[0]
    if t.op in ('null', 'undef', 'true', 'false'):
        return t.op
    return t.op + '(' + ','.join(show(x, depth + 1) for x in t.args) + ')'
