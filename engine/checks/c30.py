"""A dataset written as text is complete and loses no precision.

The saving function is flattened and every output to its file is classified by
the value written.  The output of values must be the point (i, j) of the
dataset's storage inside a loop over exactly the positions of series i, itself
inside a loop over exactly the series of the dataset, once per iteration on
every path, without early exit; the name of series i is written once per row
before its values whenever the dataset has names; each row is ended once after
its values; every value is followed or separated by the given separator.  No
other output is made, the file is opened for overwriting, and before the first
value the stream's precision is set to at least the number of digits that
identifies every number, and nothing changes the number format afterwards.
"""
from gx import api
from gx.streams import *
from gx.loops import ranges, iter_skips, again, once, loops_of

RULE = 'coverage and exactly-once of output calls over the loop nest; output precision set before the first value'
DIGITS = 17


def run(ctx):
    p = ctx.prog(['index'] + plan([r'^%s::(saveData|isLoaded)\(' % SET]))
    roles = set_roles(ctx)
    f = ctx.one(p, SET + '::saveData')
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    from checks.c21 import null_field
    data = null_field(ctx, p, SET + '::isLoaded')
    this = s.argByName['this']
    sep = [a for a in s.argT if a.args[2] == 'i8']
    ctx.require(len(sep) == 1, 'the separator argument was not found')
    S = Streams(s)
    ctx.require(len(S.openers) == 1, 'the file written was not found')
    A = S.target(S.openers[0])
    count = mk('ld', roles.at(this, 'getItemCount'), 'i32', ())
    width = mk('ld', roles.at(this, 'getMaxLength'), 'i32', ())
    base = mk('ld', ptr_add(this, {(): data} if data else {}), 'ptr', ())
    lens = roles.at(this, 'getItemLength')
    kinds = {'value': [], 'name': [], 'end': [], 'sep': [], 'precision': []}
    nest = {}
    for i in f.instrs():
        if not i.is_call or S.target(i) is not A:
            continue
        a = s.info[i.id]['args']
        op = last(i)
        if op == 'precision' and len(a) > 1:
            ctx.expect(a[1].op == 'int' and a[1].args[0] >= DIGITS, 'precision', i.where,
                       'the output precision does not identify every number')
            kinds['precision'].append(i)
            continue
        if op in ('setf', 'unsetf', 'flags', 'imbue', 'copyfmt', 'width', 'fill') and len(a) > 1:
            ctx.bad('format', i.where, 'the number format of the file is changed')
            continue
        if op in QUIET or '~' in op or i.short in OPENERS or op in ('close', 'flush'):
            continue
        ctx.count('outputs')
        k = kind(ctx, p, s, i, a, base, width, sep[0], nest)
        if not ctx.expect(k is not None, 'other-output', i.where, 'something other than names, values, separators and row ends is written'):
            continue
        kinds[k].append(i)
    for i in S.openers:
        m = [x for x in s.info[i.id]['args'][2:] if x.op == 'int']
        ctx.expect(all(not x.args[0] & ~(4 | 16 | 32) for x in m), 'mode', i.where, 'the file is not opened for overwriting')
    vs = kinds['value']
    ctx.require(vs, 'no output of values found')
    ps = [i for i in kinds['precision']]
    for i in vs:
        ctx.expect(ps and not api.reaches_without(s, i, ps), 'precision-set', i.where, 'values are written without setting the precision')
    # ------------------------------------------------------------ loops
    hi, hj, I, J = None, None, None, None
    for i in vs:
        row, col = nest[i.id]
        ls = loops_of(f, i.blk)
        ok = len(ls) == 2
        if ok:
            rr = [r for r in ranges(s, ls[0]) if r.atom is row]
            cc = [r for r in ranges(s, ls[1]) if r.atom is col]
            ok = len(rr) == 1 and len(cc) == 1
        ctx.expect(ok, 'nest', i.where, 'values are not written by a loop over series and positions')
        if not ok:
            return
        r, c = rr[0], cc[0]
        ln = mk('ld', mk('elem', lens, row), 'i32', ())
        ctx.expect(r.lo is const(0) and r.hi is count and not r.early and r.step == 1, 'rows', i.where, 'not every series is written')
        ctx.expect(c.lo is const(0) and c.hi is ln and not c.early and c.step == 1, 'columns', i.where,
                   'not exactly the values of a series are written')
        hi, hj, I, J = ls[0], ls[1], row, col
    ctx.expect(once(s, hj, vs), 'value-once', vs[0].where, 'a value may be left out or written twice')
    ctx.expect(not iter_skips(s, hi, [f.blocks[hj].ins[0]]), 'row-once', vs[0].where, 'the values of a series may be left out')
    row = [i for i in kinds['end']]
    ctx.expect(all(loops_of(f, i.blk) == [hi] for i in row) and once(s, hi, row), 'row-end', (row or vs)[0].where,
               'a row may not be ended exactly once')
    body = f.loops[hj]
    for i in row + kinds['name']:
        early = i in row
        inner = [f.blocks[hj].ins[0]]
        if early:
            ctx.expect(not again(s, hi, [i], inner), 'order', i.where, 'a row is ended before its values are written')
        else:
            ctx.expect(not again(s, hi, inner, [i]), 'order', i.where, 'the name of a series is not written before its values')
    # ------------------------------------------------------------ names
    nm = kinds['name']
    if ctx.expect(bool(nm), 'names', f.where, 'names are not written'):
        vec = s.info[nm[0].id]['args'][1].args[0]
        empty = mk('size', mk('ld', vec, 'obj', ()))
        pr = Prover(s)

        def nameless(b, n):
            return pr.le(empty, const(0), edge(s, b, n))
        ctx.expect(once(s, hi, nm, nameless), 'name-once', nm[0].where, 'the name of a series may be left out or written twice')
        for i in nm:
            ctx.expect(s.info[i.id]['args'][1].args[1] is I, 'name-row', i.where, 'the name written belongs to another series')
            ctx.expect(loops_of(f, i.blk) == [hi], 'name-row', i.where, 'the name of a series is not written once per row')
    # ------------------------------------------------------------ separators
    seps = [i for i in kinds['sep'] if i.blk in body]
    pr = Prover(s)
    c = [r for r in ranges(s, hj) if r.atom is J][0]

    def at_end(b, n):
        fs = edge(s, b, n)
        return pr.le(J, c.lo, fs) or pr.le(mkpoly(padd(poly(c.hi), {(): -1})), J, fs)
    ctx.expect(once(s, hj, seps, at_end), 'separated', (seps or vs)[0].where, 'values are not separated')


def kind(ctx, p, s, i, a, base, width, sep, nest):
    v = a[1] if len(a) > 1 else None
    if v is None:
        return None
    if i.short.endswith('operator<<') and '(double)' in i.dem:
        if v.op != 'ld':
            return None
        r, o = ptr_parts(v.args[0])
        if r is not base:
            return None
        rest = dict(o)
        row = [m for m in rest if len(m) == 2 and width in m and rest[m] == 8]
        if len(row) != 1:
            return None
        I = [x for x in row[0] if x is not width]
        del rest[row[0]]
        if len(I) != 1 or len(rest) != 1:
            return None
        (m, k), = rest.items()
        if k != 8 or len(m) != 1:
            return None
        nest[i.id] = (I[0], m[0])
        return 'value'
    if v is sep:
        return 'sep'
    if v.op == 'elem' and 'basic_string' in i.dem:
        return 'name'
    if v.op == 'global' and ('endl' in v.args[0]):
        return 'end'
    if v.op == 'int' and v.args[0] == 10 and i.dem.endswith(', char)'):
        return 'end'
    if v.op == 'global':
        g = p.globals.get(v.args[0])
        if g and isinstance(g.get('init'), dict) and g['init'].get('str') == '\n':
            return 'end'
    return None
