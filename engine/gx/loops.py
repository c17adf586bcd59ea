"""Loop ranges: which values an induction variable takes, and what happens in every iteration."""
from . import api
from .sym import neg_, minmax
from .terms import T, mk, poly, mkpoly, padd, const, add, le0, eq0, ptr_parts


def exceptional(fn, b):
    """control that enters b can only leave the function by an exception"""
    c = fn.__dict__.setdefault('_exc', {})
    if b not in c:
        c[b] = not any(fn.blocks[x].term.op == 'ret' for x in fn.reachable(b) | {b})
    return c[b]


def exits(s, h):
    """ordinary exits of loop h: list of (block, successor)"""
    fn = s.fn
    body = fn.loops[h]
    out = []
    for b in sorted(body):
        t = fn.blocks[b].term
        for n in fn.blocks[b].succs:
            if n in body or api.dead_edge(s, b, n):
                continue
            if t.op == 'invoke' and t.get('succ')[1] == n:
                continue
            if exceptional(fn, n) and not exceptional(fn, h):
                continue
            out.append((b, n))
    return out


def edge_cond(s, b, n):
    """condition under which the edge b -> n is taken (None if unconditional or a switch)"""
    from .sym import neg_
    t = s.fn.blocks[b].term
    if t.op == 'br' and len(t.get('succ')) == 2:
        c = s.asbool(s.val(t.ops[0]))
        return c if t.get('succ')[0] == n else neg_(c)
    return None


class Range:
    """for (a = lo; a < hi; a += step)"""

    def __init__(self, h, atom, lo, hi, step, body, early, rotated, test=None):
        self.h, self.atom, self.lo, self.hi, self.step, self.body = h, atom, lo, hi, step, body
        self.early = early          # ordinary exits other than reaching the bound
        self.rotated = rotated
        self.test = test            # block that compares with the bound

    def __repr__(self):
        return 'Range(@%s %s: %s..%s step %s early=%s)' % (self.h, self.atom, self.lo, self.hi, self.step, self.early)


def _bound(c, a, step, after):
    """c: condition of leaving.  -> bound term (exclusive, in direction of step) or None.
    after: the test looks at the already advanced value"""
    off = step if after else 0
    parts = alternatives(c)
    if parts:
        # leaving as soon as one of several bounds is reached
        bs = [_bound(x, a, step, after) for x in parts if x.op != 'eq0']
        if len(bs) < len(parts) or any(b is None for b in bs):
            return None
        r = bs[0]
        for b in bs[1:]:
            r = minmax('min' if step > 0 else 'max', r, b)
        return r
    if c.op == 'not' and c.args[0].op in ('ult', 'ule'):
        g = c.args[0]
        x, y = g.args
        # leaving when not (x < y)
        d = padd(poly(x), {(a,): 1}, -1)
        if set(d) <= {()} and step > 0:
            k = d.get((), 0)
            # stays while a + k < y
            hi = padd(poly(y), {(): (0 if g.op == 'ult' else 1) - k})
            return mkpoly(hi)
        return None
    if c.op == 'ule' and step > 0:
        # leaving when hi <= a
        x, y = c.args
        d = padd(poly(y), {(a,): 1}, -1)
        if set(d) <= {()}:
            return mkpoly(padd(poly(x), {(): -d.get((), 0)}))
        return None
    if c.op == 'le0':
        p = poly(c.args[0])
        k = p.get((a,), 0)
        if step > 0 and k == -1:
            # hi - a <= 0
            q = {m: v for m, v in p.items() if m != (a,)}
            return mkpoly(q)
        if step < 0 and k == 1:
            # a - lo + 1 <= 0  -> leaves when a < lo ; bound (exclusive) = lo - 1
            q = {m: -v for m, v in p.items() if m != (a,)}
            return mkpoly(q)
        return None
    if c.op == 'eq0':
        p = poly(c.args[0])
        k = p.get((a,), 0)
        if abs(k) == 1 and abs(step) == 1:
            q = {m: -v * k for m, v in p.items() if m != (a,)}
            return mkpoly(q)
    return None


def alternatives(c):
    """conditions one of which holds when c does"""
    return c.args if c.op == 'or' else [neg_(x) for x in c.args[0].args] if c.op == 'not' and c.args[0].op == 'and' else ()


def ranges(s, h):
    fn = s.fn
    body = fn.loops[h]
    out = []
    ex = exits(s, h)
    for a, inc in list(s.minc.items()):
        if a.op != 'phi' or a.args[1] != h or 'entry' not in inc or a.args[0] != fn.name:
            continue
        steps = set()
        ok = True
        for p, v in inc.items():
            if p == 'entry':
                continue
            d = padd(poly(v), {(a,): 1}, -1)
            d = {m: c for m, c in d.items() if c}
            if set(d) == {()}:
                steps.add(d[()])
            else:
                ok = False
        if not ok or len(steps) != 1:
            continue
        step = steps.pop()
        main = None
        early = []
        for b, n in ex:
            c = edge_cond(s, b, n)
            bd = None
            if c is not None:
                for part in ([c] if c.op != 'and' else [c]):
                    bd = _bound(part, a, step, False)
            flagged = bd is None and c is not None
            if flagged:
                # the bound is one of several reasons to leave
                for part in alternatives(c):
                    bd = _bound(part, a, step, False)
                    if bd is not None:
                        break
            if bd is not None and not mentions(bd, a):
                hi, rot = bd, False
                if flagged:
                    early.append((b, n))
                if b != h and h in fn.blocks[b].succs:
                    # test at the end of an iteration looks at a+step: stays while a + step < hi
                    rot = True
                    hi = mkpoly(padd(poly(hi), {(): step}))
                if main is None:
                    main = (hi, rot, b)
                    continue
            early.append((b, n))
        if main is None:
            continue
        lo, hi = inc['entry'], main[0]
        if step < 0:
            lo, hi = mkpoly(padd(poly(hi), {(): 1})), mkpoly(padd(poly(lo), {(): 1}))
        out.append(Range(h, a, lo, hi, step, body, early, main[1], main[2]))
    return out


def mentions(t, a):
    from .terms import contains
    return contains(t, lambda x: x is a)


def iter_skips(s, h, stops, skip_edge=None):
    """some complete iteration of loop h executes none of the instructions in stops"""
    fn = s.fn
    body = fn.loops[h]
    sb = {i.blk for i in stops}
    if h in sb:
        return False
    seen = set()
    work = []

    def push(b):
        t = fn.blocks[b].term
        for n in fn.blocks[b].succs:
            if n != h and n not in body or api.dead_edge(s, b, n):
                continue
            if t.op == 'invoke' and t.get('succ')[1] == n and n != t.get('succ')[0] and n not in body:
                continue
            if skip_edge and skip_edge(b, n):
                continue
            work.append(n)
    push(h)
    while work:
        b = work.pop()
        if b == h:
            return True
        if b in seen or b in sb:
            continue
        seen.add(b)
        push(b)
    return False


def loops_of(fn, b):
    """headers of the loops containing block b, outermost first"""
    hs = [h for h, body in fn.loops.items() if b in body]
    return sorted(hs, key=lambda h: -len(fn.loops[h]))


def again(s, h, calls, among=None):
    """after one of the calls another one (of `among`) is executed in the same iteration of loop h"""
    fn = s.fn
    body = fn.loops[h]
    among = calls if among is None else among
    for c in calls:
        blk = fn.blocks[c.blk].ins
        k = [n for n, j in enumerate(blk) if j.id == c.id][0]
        rest = {j.id for j in blk[k + 1:]}
        if any(d.id in rest for d in among):
            return True
        seen, work = set(), list(fn.blocks[c.blk].succs)
        while work:
            b = work.pop()
            if b in seen or b == h or b not in body:
                continue
            seen.add(b)
            if any(d.blk == b for d in among):
                return True
            work += fn.blocks[b].succs
    return False


def once(s, h, calls, skip_edge=None):
    """every complete iteration of loop h executes exactly one of the calls"""
    return bool(calls) and not iter_skips(s, h, calls, skip_edge) and not again(s, h, calls)


def inner_range(s, b, good):
    """innermost loops around block b, outermost first, each with its ranges accepted by `good`"""
    return [(h, [r for r in ranges(s, h) if good(r)]) for h in loops_of(s.fn, b)]
