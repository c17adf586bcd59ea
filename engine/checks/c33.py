"""Candidates and groups are ranked by a strict weak order.

Every comparison function of the repository that the standard algorithms call
to sort or to keep a heap is found in the call graph of the resolved program.
Its answer is tabulated over all relative orders of the fields it looks at
(smaller, equal, larger, infinite, not a number), by following every way through
it: this is complete because the function may use the fields only in comparisons
of the same field of the two objects.  A comparison with a tolerance, or of
anything else, is reported.  On the table the four axioms are decided: nothing
before itself, no two before each other, transitivity of before and of neither
before nor after.  All heap operations and sorts of one collection must use the
same comparison.
"""
import re

from gx.lib import *
from gx.order import Order, Unclear, COMPARE

RULE = 'comparison functions handed to sorting and heap algorithms, tabulated over all relative orders of their fields'
ALGO = re.compile(r'^std::(sort|stable_sort|partial_sort|nth_element|make_heap|push_heap|pop_heap|sort_heap|is_heap|is_sorted|'
                  r'lower_bound|upper_bound|binary_search|merge|inplace_merge|min_element|max_element|minmax_element|partial_sort_copy)$')


def run(ctx):
    p = ctx.prog(['index'])
    idx = p.index
    comps = set()
    for n, d in idx.items():
        if re.search(r'__gnu_cxx::__ops::|std::less<|std::greater<', d['dem'].split('(')[0]):
            comps |= {c for c in d.get('calls', ()) if idx.get(c, {}).get('repo')}
    ctx.require(comps, 'no comparison used for ranking was found')
    pats = ['^%s$' % re.escape(idx[c]['dem']) for c in sorted(comps)]
    q = ctx.prog(plan(pats, (), COMPARE))
    done = set()
    for c in sorted(comps):
        f = q.funcs.get(c)
        ctx.require(f is not None, 'a comparison used for ranking could not be analysed')
        if not any(r.ops and r.get('oty') in ('i1', ['i1']) for r in rets(f)):      # assignment or destruction of an argument
            continue
        ctx.count('comparisons')
        judge(ctx, f, ctx.sym(f, q, nogate=True))
    ctx.require(any('candidate' in idx[c]['dem'] for c in comps), 'candidates are no longer ranked by a comparison of their own')
    uses(ctx, idx)


def judge(ctx, f, s):
    key = 'order:%s' % f.dem.split('(')[0]
    try:
        o = Order(s)
    except Unclear as e:
        ctx.bad(key, f.where, 'objects are ranked by a comparison that is no order on its fields: %s' % e)
        return
    fl = o.flaws()
    ctx.count('kinds of objects compared', len(o.elements))
    ctx.count('comparisons tabulated', len(o.elements) ** 2)
    for m, ex in sorted(fl.items()):
        ctx.bad(key, f.where, 'objects are ranked by a comparison that is no strict weak order: %s (field values %s)' %
                (m, ' / '.join(str(e) for e in ex)))
    if not fl:
        ctx.ok('%s: strict weak order over %d fields' % (f.where, len(o.keys)))


def uses(ctx, idx):
    """sorting and heap algorithms: same order for one kind of object in one function"""
    n = 0
    by = {}
    for name, d in sorted(idx.items()):
        if not d.get('repo') or d.get('decl'):
            continue
        for c in d.get('calls', ()):
            e = idx.get(c)
            if not e:
                continue
            dem = e['dem']
            m = re.match(r'(?:[\w:<>, ]* )?(std::\w+)<', dem)
            if not m or not ALGO.match(m.group(1)):
                continue
            n += 1
            el = re.search(r'__normal_iterator<([\w:]+)\*', dem)
            cmp_ = dem[dem.index('(') + 1:].rstrip(')')
            parts = split_args(cmp_)
            extra = tuple(x for x in parts if '__normal_iterator' not in x and x.strip())
            by.setdefault((name, el.group(1) if el else '?'), {}).setdefault(extra, []).append((m.group(1), d))
    ctx.require(n >= 4, 'sorting and heap operations not found')
    ctx.count('sorting and heap operations', n)
    for (name, el), cs in sorted(by.items()):
        d = idx[name]
        ctx.expect(len(cs) == 1, 'uses:%s' % d['dem'].split('(')[0], '%s:%s' % (d.get('file'), d.get('line')),
                   'one collection of %s is ordered by different comparisons' % el)


def split_args(a):
    out, dep, cur = [], 0, ''
    for ch in a:
        if ch in '<(':
            dep += 1
        elif ch in '>)':
            dep -= 1
        if ch == ',' and dep == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]
