"""A group file is checked against the dataset before it is trusted.

Decided on the flattened functions that read groups, for both formats:
 * the grouping is read only where the number of series and the longest length read from the file are known to equal those of the dataset;
 * whatever fails while groups are read, the field that shows the groups of the dataset still shows the old ones, which were not
   destroyed (typestate over every exceptional exit);
 * a number extracted from a text file is used only where the stream was found good after the extraction, and values read straight into
   an object are followed by such a test on every way to a normal end;
 * the lengths read are proved to lie inside the table of lengths wherever they select an entry;
 * the table of members is read or written only at the position of a member whose start is known to be at least zero and at most the
   length of its series minus the length of the group, the series being accepted by the dataset; the table has a place for
   every start of every series and its size never changes;
 * a representative is fetched only for a start known not to be negative;
 * the dataset accepts only numbers of existing series and ranges inside a series.
"""
import re

from gx import api
from gx.lib import *
from gx.loops import exceptional, loops_of
from gx.terms import subterms
from gx.sym import neg_
from checks import c07, c08, c11, c19
from checks.c19 import CLS, Env, Fn, demanded, after

RULE = 'equality with the dataset before the grouping is read; file values bounded at every table access; typestate of the old groups'


def run(ctx):
    cl = list(CLS.values())
    roots = [r' %s::(save|load)<' % c for c in cl] + [r'^%s::(save|load)Groups?Old\(' % c for c in cl] + \
        [r' genex::(saveToFile|loadFromFile)<', r'^%s::group\(' % GGS, r'^%s::printData\(' % TS]
    keep = [r'(^| )%s::(save|load)(Groups?Old)?[<(]' % c for c in cl[1:]] + [r'^%s::(~|Group\()' % GRP, r'^%s::(Local|~|getNumberOfGroups)' % LGS, r'^%s::(Global|~)' % GGS,
            r'^%s::' % SET, r'^%s::(?!getLength)' % TS, r'^genex::getDistanceFromName', r'^%s::generateGroups' % LGS]
    p = ctx.prog(['index'] + plan(roots, keep))
    E = Env(ctx, p)
    fs = {}
    for f in p.funcs.values():
        for role, c in CLS.items():
            m = re.match(r'%s::load(\w*)$' % re.escape(c), f.short)
            if m:
                fs.setdefault((role, 'text' if m.group(1) else 'binary'), []).append(f)
    for role in CLS:
        for fmt in ('binary', 'text'):
            ctx.require(len(fs.get((role, fmt), [])) == 1, 'there is not one function that loads %s %s' % (fmt, role))
            fn = Fn(E, fs[role, fmt][0], role, fmt, False)
            ctx.count('reading functions')
            ctx.require(fn.items, '%s reads nothing' % fn.f.short)
            if role == 'dataset':
                accepted(ctx, fn)
            if fmt == 'text':
                tested(ctx, fn)
            if role == 'group':
                positions(ctx, E, fn)
    kept(ctx)
    lengths(ctx)
    table(ctx, p)
    dataset(ctx)


def accepted(ctx, fn):
    s, f = fn.s, fn.f
    key = '%s:accepted' % fn.fmt
    reads = [i for i, k, x in fn.items.values() if k == GGS]
    ctx.require(reads, '%s reads no grouping' % f.short)
    for i in reads:
        known = set()
        for x in s.facts(i.blk):
            if x.op == 'eq0':
                for m in poly(x.args[0]):
                    if len(m) == 1 and fn.item_of(m[0]) is not None:
                        known |= demanded(s, f, x, m[0], fn.this)
        for w in ('number of series', 'longest length'):
            ctx.expect(w in known, key, i.where, 'the grouping is read although the %s may differ from that of the dataset' % w)


GOOD, BAD = ('operator bool', 'good'), ('operator!', 'fail')


def tested(ctx, fn):
    s, f = fn.s, fn.f
    tests = []
    for i in f.instrs():
        n = (i.short or '').rsplit('::', 1)[-1] if i.is_call else ''
        if i.is_call and n in GOOD + BAD and ('std::basic_ios' in i.short or 'std::ios' in i.short):
            t = s.asbool(s.vals[i.id])
            tests.append((i, t if n in GOOD else neg_(t)))

    def good(i, b):
        fs = s.facts(b)
        return any(t in fs and after(f, i, c) for c, t in tests)
    for i, k, q in fn.items.values():
        if k in CLS.values():
            continue
        ctx.count('numbers read from text')
        key = 'text:%s:tested' % fn.role
        r, o = ptr_parts(q)
        mine = [c for c, t in tests if after(f, i, c) or not f.dominates(c.blk, i.blk) and c.blk != i.blk]
        for x in rets(f):
            ctx.expect(not way_back(s, f, i, x, mine), key, i.where, 'reading may end normally although this value was not in the file')
        if r.op != 'alloca':
            continue

        def uses(t):
            return isinstance(t, T) and any(fn.item_of(y) == i.id for y in subterms(t))
        bad = set()
        for j in f.instrs():
            if exceptional(f, j.blk):
                continue
            ts = []
            if j.is_call and j.id not in fn.items:
                ts = s.info.get(j.id, {}).get('args') or []
            elif j.op == 'store' and s.info[j.id]['ptr'].op != 'alloca':
                ts = [s.info[j.id]['val'], s.info[j.id]['ptr']]
            elif j.op == 'ret' and j.ops:
                ts = [s.val(j.ops[0])]
            elif j.op in ('br', 'switch') and j.ops:
                ts = [s.val(j.ops[0])]
            if any(uses(t) for t in ts) and not good(i, j.blk):
                bad.add(j.where)
        ctx.expect(not bad, key, i.where, 'a value is used before the stream is known to have delivered it: %s' % ', '.join(sorted(bad)))


def way_back(s, f, i, target, stops):
    """is there a way from instruction i to the target that passes none of the stops"""
    ids = {j.id for j in stops}
    ins = f.blocks[i.blk].ins
    k = [j.id for j in ins].index(i.id)
    seen, work = set(), [(i.blk, k + 1)]
    while work:
        b, n = work.pop()
        if (b, n) in seen:
            continue
        seen.add((b, n))
        stop = False
        for j in f.blocks[b].ins[n:]:
            if j.id in ids:
                stop = True
                break
            if j.id == target.id:
                return True
        if not stop:
            t = f.blocks[b].term
            for x in f.blocks[b].succs:
                if not (t.op == 'invoke' and x == t.get('succ')[1]):
                    work.append((x, 0))
    return False


def positions(ctx, E, fn):
    s, f = fn.s, fn.f
    pr = Prover(s)
    key = '%s:position' % fn.fmt
    lens = [i for i in f.instrs() if i.is_call and i.short == SET + '::getItemLength' and c11.own_dataset(s, s.info[i.id]['call'].this)]
    gets = [i for i in f.instrs() if i.is_call and i.short == SET + '::getTimeSeries' and c11.own_dataset(s, s.info[i.id]['call'].this)]
    size = fn.memlen()
    ctx.require(size is not None, 'the length of the members of a group was not found')

    def is_len(t):
        return c19.field_v(t, fn.this) == size

    def inside(i, x, y):
        """start y of series x is known to leave room for a member"""
        fs = s.facts(i.blk)
        if not pr.ge0(y, fs):
            return False
        for c in lens:
            if after(f, c, i) and s.info[c.id]['call'].params[0] is x:
                for t in f_len(fs):
                    if is_len(t) and pr.le(add(y, t), s.vals[c.id], fs):
                        return True
        for c in gets:
            a = s.info[c.id]['call'].params
            if after(f, c, i) and a[0] is x and a[1] is y and is_len(add(a[2], y, -1)):
                return True
        return False

    def f_len(fs):
        out = set()
        for x in fs:
            for t in subterms(x):
                if isinstance(t, T) and is_len(t):
                    out.add(t)
        return out
    n = 0
    for i, v, k in c11.index_calls(s):
        if 'group_membership_t' not in i.dem:
            continue
        n += 1
        ctx.count('accesses to the table of members')
        ok = False
        if k is not None:
            row = [m for m, c in poly(k).items() if len(m) == 2 and c == 1]
            for m in row:
                for x, r in ((m[0], m[1]), (m[1], m[0])):
                    y = add(k, mk_mul(m), -1)
                    ok = ok or c19.field_v(r, fn.this) == E.lk.row_off and inside(i, x, y)
        ctx.expect(ok, key, i.where, 'the table of members is accessed at a position that was not checked against the dataset')
    ctx.require(n, '%s does not enter members' % f.short)
    for i in f.instrs():
        if i.is_call and i.short == SET + '::getTimeSeries':
            a = s.info[i.id]['call'].params
            ctx.count('series fetched')
            ctx.expect(pr.ge0(a[1], s.facts(i.blk)), '%s:fetched' % fn.fmt, i.where, 'a series is fetched for a start that may be negative')
    # values of the representative are read into a series of that many values
    for i in f.instrs():
        if i.is_call and i.short == TS + '::operator[]' and fn.is_rep(s.info[i.id]['args'][0]):
            k = s.info[i.id]['args'][1]
            ok = False
            for c in f.instrs():
                if c.is_call and c.short == TS + '::TimeSeries' and after(f, c, i) and len(s.info[c.id]['args']) == 2 and is_len(s.info[c.id]['args'][1]):
                    mv = [j for j in f.instrs() if j.is_call and j.short == TS + '::operator=' and fn.is_rep(s.info[j.id]['args'][0]) and
                          s.info[j.id]['args'][1] is s.info[c.id]['args'][0] and after(f, j, i)]
                    if mv or fn.is_rep(s.info[c.id]['args'][0]):
                        ok = pr.in_range(k, s.info[c.id]['args'][1], s.facts(i.blk))
            ctx.expect(ok, '%s:values' % fn.fmt, i.where, 'a value of the representative is written outside of it')


def mk_mul(m):
    return mkpoly({m: 1})


def kept(ctx):
    p, off = c08.shown(ctx)
    fs = [f for f in p.funcs.values() if re.match(r'%s::load(Groups?Old)?$' % re.escape(GSET), f.short)]
    ctx.require(len(fs) == 2, 'the functions that load groups were not found')
    for f in fs:
        c08.method(ctx, p, f, off, kept=True)


def lengths(ctx):
    _, off = c11.table_field(ctx)
    p = ctx.prog(plan([r'^%s::load' % GGS, r' %s::load<' % GGS], [r'^%s::' % LGS, 'boost::', c11.TSKEEP]))
    fs = [f for f in p.funcs.values() if f.short.startswith(GGS + '::load')]
    ctx.require(len(fs) >= 2, 'the functions that load a grouping were not found')
    for f in fs:
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        T_ = ptr_add(s.argByName['this'], {(): off} if off else {})
        n = len([1 for i, v, k in c11.index_calls(s) if v is T_])
        if n:
            c11.subs(ctx, s, f, T_)
        ctx.require(n or f.short == GGS + '::_loadDistance', '%s does not fill the table of lengths' % f.short)


CHANGES = ('resize', 'clear', 'assign', 'push_back', 'emplace_back', 'pop_back', 'erase', 'insert', 'emplace', 'operator=', 'swap')


def table(ctx, p):
    """places for every member, for good"""
    S = c07.space(ctx)
    ctx.require('sub' in S and 'table' in S or ctx.violations, 'the table of members was not found')
    L = c07.layout(ctx)
    for c in sorted(p.index.values(), key=lambda c: c['name']):
        m = re.match(r'(?:.* )?std::vector<genex::group_membership_t.*?>::(\w+|operator=)\s*(?:<.*>)?\(', c['dem'])
        if not m or m.group(1) not in CHANGES:
            continue
        for f in p.index.values():
            if f['repo'] and c['name'] in f['calls'] and not re.search(r'%s::%s\(' % (LGS, LGS.split('::')[-1]), f['dem']):
                ctx.bad('table:size', '%s:%s' % (f['file'], f['line']), 'the size of the table of members may change in %s' % f['dem'].split('(')[0])
    ctx.ok('table:size')


def dataset(ctx):
    """the dataset accepts existing series and ranges only"""
    p = ctx.prog(plan([r'^%s::(getItemLength|getTimeSeries)\(' % SET], [TS + '::(?!getLength)']))
    sr = set_roles(ctx)
    for name in ('getItemLength', 'getTimeSeries'):
        f = ctx.one(p, SET + '::' + name)
        s = ctx.sym(f, p, nogate=True, stable=stable_args)
        this = s.argByName['this']
        ints = [a for a in s.argT if a.args[2] == 'i32']
        pr = Prover(s)
        n = sr.at(this, 'getItemCount')
        for r in rets(f):
            for fs in ways(s, r.blk, 2):
                cnt = {t for x in fs for t in subterms(x) if isinstance(t, T) and place(t) is n}
                ok = bool(cnt) and all(pr.in_range(ints[0], c, fs) for c in cnt)
                ctx.expect(ok, 'dataset:%s' % name, r.where, 'the number of a series is not compared with the number of series')
        if name == 'getTimeSeries':
            made = [i for i in f.instrs() if i.is_call and i.short == TS + '::TimeSeries' and len(s.info[i.id]['call'].params) == 4]
            ctx.require(made and len(ints) == 3, 'the dataset no longer makes series of a range')
            for i in made:
                a = s.info[i.id]['call'].params
                for a, fs in split(s, list(a), s.facts(i.blk)):
                    fs = list(fs)
                    ln = {t for x in list(fs) + list(a) for t in subterms(x) if isinstance(t, T) and is_length(s, t, this, ints[0])}
                    whole = a[2] is const(0) and a[3] in ln
                    part = pr.ge0(a[2], fs) and pr.le(a[2], a[3], fs) and any(pr.le(a[3], t, fs) for t in ln)
                    ctx.expect(whole or part, 'dataset:range', i.where, 'a series is made of values outside the series of the dataset')


def is_length(s, t, this, k):
    q = place(t)
    if q is None or q.op != 'elem':
        return False
    return ptr_parts(q.args[0])[0] is this and q.args[1] is k
