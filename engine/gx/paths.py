"""Joint case splits: replace merges by their incoming values, all at once, with the branch facts of each case."""
from .terms import T, mk, poly, mkpoly, padd, pmul, le0, eq0, fcmp, ptr_add, ptr_parts, subterms, TRUE, FALSE
from .sym import neg_, and_, sel


def rewrite(t, m, memo=None):
    """term t with the atoms of m replaced, rebuilt in normal form"""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(rewrite(x, m, memo) for x in t)
        return t
    r = memo.get(t.uid)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not t.args or t.op in ('int', 'arg', 'alloca', 'new', 'ret', 'upd', 'global', 'phi', 'fconst'):
        r = t
    elif t.op == 'poly':
        p = {(): t.args[0]}
        for mono, k in t.args[1]:
            q = {(): k}
            for x in mono:
                q = pmul(q, poly(rewrite(x, m, memo)))
            p = padd(p, q)
        r = mkpoly(p)
    elif t.op == 'ptr':
        r = ptr_add(rewrite(t.args[0], m, memo), poly(rewrite(t.args[1], m, memo)))
    elif t.op == 'le0':
        r = le0(poly(rewrite(t.args[0], m, memo)))
    elif t.op == 'eq0':
        r = eq0(poly(rewrite(t.args[0], m, memo)))
    elif t.op == 'not':
        r = neg_(rewrite(t.args[0], m, memo))
    elif t.op == 'and':
        r = and_(rewrite(t.args[0], m, memo), rewrite(t.args[1], m, memo))
    elif t.op == 'sel':
        r = sel(rewrite(t.args[0], m, memo), rewrite(t.args[1], m, memo), rewrite(t.args[2], m, memo))
    elif t.op == 'fcmp':
        r = fcmp(t.args[0], rewrite(t.args[1], m, memo), rewrite(t.args[2], m, memo))
    elif t.op == 'size':
        r = size_of_(rewrite(t.args[0], m, memo))
    else:
        a = tuple(rewrite(x, m, memo) for x in t.args)
        if t.op in ('fadd', 'fmul'):
            a = tuple(sorted(a, key=lambda x: x.uid))
        if all(x is y for x, y in zip(a, t.args)):
            r = t
        else:
            r = mk(t.op, *a)
            r.isbool = t.isbool
    memo[t.uid] = r
    return r


def size_of_(c):
    from .models import size_of
    return size_of(None, c)


def edge(sym, p, b):
    out = list(sym.facts(p))
    t = sym.fn.blocks[p].term
    if t.op == 'br' and len(t.get('succ')) == 2 and t.get('succ')[0] != t.get('succ')[1]:
        c = sym.asbool(sym.val(t.ops[0]))
        sym.cond_facts(c, t.get('succ')[0] == b, out)
    return out


def split(sym, terms, facts, limit=400, keep=None, seen=None):
    """[(terms, facts)] with every acyclic merge and conditional resolved, consistently over all terms"""
    out = []
    work = [(tuple(terms), tuple(facts))]
    n = 0
    while work:
        ts, fs = work.pop()
        n += 1
        if n > limit:
            raise OverflowError('too many cases')
        if FALSE in fs:
            continue
        best = None
        bs = None
        for t in ts:
            for x in subterms(t):
                if x.op == 'phi' and x in sym.minc and 'entry' not in sym.minc[x] and x.args[0] == sym.fn.name:
                    if keep and keep(x):
                        continue
                    k = sym.fn.rpo_no[x.args[1]]
                    if best is None or k > best[0]:
                        best = (k, x.args[1])
                elif x.op == 'sel' and bs is None and x.args[0].isbool:
                    bs = x
        if best is not None:
            b = best[1]
            phis = {x for t in ts for x in subterms(t) if x.op == 'phi' and x.args[1] == b and x.args[0] == sym.fn.name
                    and x in sym.minc and 'entry' not in sym.minc[x]}
            phis |= {x for t in fs for x in subterms(t) if x.op == 'phi' and x.args[1] == b and x.args[0] == sym.fn.name
                     and x in sym.minc and 'entry' not in sym.minc[x]}
            preds = set()
            for x in phis:
                preds |= set(sym.minc[x])
            for p in preds:
                m = {x: sym.minc[x][p] for x in phis if p in sym.minc[x]}
                memo = {}
                nf = list(dict.fromkeys([rewrite(f, m, memo) for f in fs] + edge(sym, p, b)))
                if contradiction(nf):
                    continue
                work.append((tuple(rewrite(t, m, memo) for t in ts), tuple(nf)))
            continue
        if bs is not None:
            c = bs.args[0]
            # all conditionals on the same condition at once
            for pos in (True, False):
                m = {}
                for t in ts:
                    for x in subterms(t):
                        if x.op == 'sel' and x.args[0] is c:
                            m[x] = x.args[1 if pos else 2]
                nf = list(fs)
                sym.cond_facts(c, pos, nf)
                if contradiction(nf):
                    continue
                memo = {}
                work.append((tuple(rewrite(t, m, memo) for t in ts), tuple(nf)))
            continue
        out.append((ts, fs))
    return out


def contradiction(fs):
    s = set(fs)
    return FALSE in s or any(neg_(f) in s for f in fs)
