"""The Python module offers the library's operations unchanged.

The functions handed to Python are found where the module is initialised.  For each of them a frozen table names the library operation
behind it, which argument goes where, and how the result is handed over.  The function is flattened down to the calls of library and binding
layer; the operation must be called once, on the one library object of the module, on every way to a normal end, with each
argument in its place.  The Python value is followed back through the binding layer: every field of a dictionary, every member
of a tuple and every element of a list must be the corresponding part of that operation's result, lists holding all elements in order.
Names of arguments are compared with the parameters they are attached to, omitted arguments with the defaults of the library.
No function catches an exception.
"""
import re

from gx import api
from gx.core import AnalysisBroken
from gx.lib import *
from gx.loops import ranges, loops_of, once, exceptional
from gx.models import size_of
from gx.route import A, R, Env, Step, check
from gx.terms import TRUE, FALSE

RULE = 'value routing between Python-visible functions and library operations, both ways, against a frozen table'
API = 'genex::GenexAPI::'
ALL = lambda n: [A(k) for k in range(n)]


def FIRST(n):
    def m(e, i, t, ty):
        if t.op == 'ld' and t.args[0].op == 'call' and str(t.args[0].args[0]).split('::')[-1] in ('operator[]', 'at', 'front'):
            a = t.args[0].args[2]
            return a[0] is e.argc(n) and (len(a) == 1 or a[1] is const(0))
        return False
    m.text = 'the first character of argument %d' % (n + 1)
    return m


def BOOL(v):
    def m(e, i, t, ty):
        return t is (TRUE if v else FALSE) or t is const(1 if v else 0)
    m.text = 'true' if v else 'false'
    return m


CAND = {'dist': 'dist', 'data': {'index': 'getIndex', 'start': 'getStart', 'end': 'getEnd'}}
TABLE = {
    'loadDataset': ('loadDataset', ALL(6), ('dict', {'name': 'name', 'count': 'itemCount', 'length': 'itemLength'})),
    'unloadDataset': ('unloadDataset', ALL(1), None),
    'saveDataset': ('saveDataset', ALL(2) + [FIRST(2)], None),
    'normalize': ('normalizeDataset', ALL(1), ('tuple',)),
    'getTimeSeriesName': ('getTimeSeriesName', ALL(2), 'same'),
    'getTimeSeriesLength': ('getTimeSeriesLength', ALL(2), 'same'),
    'group': ('groupDataset', ALL(5), 'same'),
    'preparePAA': ('preparePAA', ALL(2), None),
    'saveGroups': ('saveGroups', ALL(2), None),
    'saveGroupsSize': ('saveGroupsOld', ALL(2) + [BOOL(True)], None),
    'loadGroups': ('loadGroups', ALL(2), 'same'),
    'distance': ('distanceBetween', ALL(9), 'same'),
    'getMatching': ('matchingBetween', ALL(9), ('list', ('tuple',))),
    'sim': ('getBestMatch', ALL(5), ('dict', CAND)),
    'ksim': ('getKBestMatches', ALL(7), ('list', ('dict', CAND))),
    'ksimbf': ('getKBestMatchesBruteForce', ALL(7), ('list', ('dict', CAND))),
    'ksimpaa': ('getKBestMatchesPAA', ALL(7), ('list', ('dict', CAND))),
    'getTimeSeries': ('getTimeSeries', ALL(4), ('list', ('value',))),
    'getAllDistances': ('getAllDistanceInfo', [], ('list', ('field', 'name'))),
    'setWarpingBandRatio': ('setWarpingBandRatio', ALL(1), None),
}
DEFAULTS = {'separators': ' ', 'maxNumRow': 0, 'startCol': 0, 'hasNameCol': 0, 'distanceName': 'euclidean', 'numThreads': 1, 'wholeSeriesOnly': 0,
            'start': -1, 'end': -1, 'start1': -1, 'end1': -1, 'start2': -1, 'end2': -1, 'distance': 'euclidean'}


def run(ctx):
    p = ctx.prog(['index'] + plan([r'^init_module_\w+\('], [r'^genex::']), 'py')
    inits = [f for f in p.funcs.values() if f.short.startswith('init_module_')]
    ctx.require(len(inits) == 1, 'the initialisation of the Python module was not found')
    ex = exports(ctx, p, inits[0])
    for name in TABLE:
        ctx.expect(name in ex, 'offered:%s' % name, inits[0].where, 'the operation %s is no longer offered to Python' % name)
    roots = ['^' + re.escape(p.index[g]['dem']) + '$' for g, _, _ in ex.values() if g in p.index]
    q = ctx.prog(plan(roots, [r'^genex::', r' genex::']), 'py')
    objs = set()
    for name, (g, kw, where) in sorted(ex.items()):
        if name not in TABLE:
            ctx.count('operations without a row in the table')
            continue
        ctx.count('operations')
        f = q.funcs.get(g)
        ctx.require(f is not None, 'the function behind %s was not found' % name)
        Op(ctx, q, name, f, objs).decide()
        keywords(ctx, name, f, ctx.sym(f, q, nogate=True, stable=stable_args), kw, where)
    ctx.expect(len(objs) == 1, 'object', inits[0].where, 'the operations do not work on one library object')


# ------------------------------------------------------------------ exported functions
def text(p, t):
    if t.op == 'global':
        return ((p.globals.get(t.args[0]) or {}).get('init') or {}).get('str')
    return None


def exports(ctx, p, f):
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    out = {}
    for i in f.instrs():
        if i.is_call and i.short == 'boost::python::def':
            a = s.info[i.id]['args']
            n = text(p, a[0])
            ctx.require(n is not None and a[1].op == 'global', 'an operation offered to Python is not a named function')
            ctx.expect(not any(api.reaches_without(s, r, [i]) for r in rets(f)), 'offered:%s' % n, i.where, 'an operation may not be offered')
            kw = []
            for x in a[2:]:
                if text(p, x) is None:
                    kw += words(p, s, x)
            out[n] = (a[1].args[0], kw, i.where)
    return out


def words(p, s, t, seen=0):
    """names and defaults collected in a keyword object"""
    if seen > 40:
        raise AnalysisBroken('names of arguments are not understood')
    if t.op == 'ret':
        j = s.fn.by_id[t.args[1]]
        return words(p, s, s.info[j.id]['args'][0], seen + 1)
    name, dflt = None, None
    for i in s.fn.instrs():
        if not i.is_call or not i.short or 'keywords' not in i.dem:
            continue
        a = s.info[i.id].get('args') or []
        if not a or a[0] is not t:
            continue
        if i.short.endswith('::operator,'):
            return words(p, s, a[1], seen + 1) + words(p, s, a[2], seen + 1)
        if i.short.endswith('::keywords') and len(a) == 2:
            name = text(p, a[1]) if text(p, a[1]) is not None else name
            if name is None:
                return words(p, s, a[1], seen + 1)
        elif i.short.endswith('::operator=') and '=<' in i.dem:
            ty = re.search(r'operator=<(.*?)>\(', i.dem).group(1)
            dflt = text(p, a[1]) if 'char' in ty else s.peek(api.state_before(s, i), a[1], {'int': 'i32', 'bool': 'i8', 'double': 'double', 'unsigned long': 'i64'}.get(ty, 'obj'))
            if isinstance(dflt, T):
                dflt = dflt.args[0] if dflt.op == 'int' else {TRUE: 1, FALSE: 0}.get(dflt, dflt)
    if name is None:
        raise AnalysisBroken('names of arguments are not understood')
    return [(name, dflt)]


def keywords(ctx, name, f, s, kw, where):
    method, args, _ = TABLE[name]
    e = Env(ctx, f, s)
    P = len(f.params)
    byarg = {t: n for n, t in s.argByName.items()}
    lib = {}
    g = ctx.one(api.program(ctx), API + method)
    sg = api.sym(ctx, g)
    eg = Env(ctx, g, sg)
    names = {t: n for n, t in sg.argByName.items()}
    for m, a in enumerate(args):
        k = re.match(r'argument (\d+)$', a.text)
        if k:
            lib[int(k.group(1)) - 1] = names.get(eg.arg(m))
    ctx.expect(len(kw) <= P, 'names:%s' % name, where, 'more arguments are named than there are')
    for k, (w, d) in enumerate(kw):
        n = P - len(kw) + k
        ctx.count('named arguments')
        if n < 0:
            continue
        same = {norm(byarg.get(e.arg(n), '')), norm(lib.get(n) or '')}
        ctx.expect(norm(w) in same, 'names:%s' % name, where, 'the name %s is attached to the argument %s' % (w, byarg.get(e.arg(n))))
        if d is not None and w in DEFAULTS:
            ctx.expect(d == DEFAULTS[w], 'defaults:%s' % name, where, 'the argument %s is %r when left out, not %r' % (w, d, DEFAULTS[w]))


def norm(n):
    return n.replace('_', '').lower()


# ------------------------------------------------------------------ one operation
class Op:
    def __init__(self, ctx, p, name, f, objs):
        self.ctx, self.p, self.name, self.f, self.objs = ctx, p, name, f, objs
        self.s = ctx.sym(f, p, nogate=True, stable=stable_args)
        self.e = Env(ctx, f, self.s)

    def decide(self):
        ctx, f, s, e = self.ctx, self.f, self.s, self.e
        method, args, result = TABLE[self.name]
        if f.short.startswith('genex::'):
            # offered directly
            ctx.expect(f.short in (API + method, 'genex::' + method), 'call:%s' % self.name, f.where, 'another function is offered under this name')
            return
        sink = API + method
        if method == 'setWarpingBandRatio' and not any(i.is_call and i.short == sink for i in f.instrs()):
            sink = 'genex::' + method

        def obj(e_, i, t, ty):
            if t.op == 'global':
                self.objs.add(t.args[0])
            return t.op == 'global'
        obj.text = 'the library object of the module'
        others = {i.short for i in f.instrs() if i.is_call and (i.short or '').startswith(API)} - {sink}
        check(ctx, e, 'call:%s' % self.name, [Step('the operation', sink, obj if sink.startswith(API) else None, args)],
              R('the operation') if result == 'same' else None)
        for o in sorted(others):
            ctx.bad('call:%s' % self.name, f.where, 'the operation also calls %s' % o)
        calls = [i for i in f.instrs() if i.is_call and i.short == sink]
        ctx.expect(len(calls) == 1 and not loops_of(f, calls[0].blk), 'call:%s' % self.name, f.where, 'the library operation is not called once')
        for b in f.rpo:
            if any(i.op == 'landingpad' for i in f.blocks[b].ins):
                ctx.expect(not any(r.blk in f.reachable(b) for r in rets(f)), 'exceptions:%s' % self.name, f.where, 'an exception of the library may not reach Python')
        if isinstance(result, tuple) and len(calls) == 1:
            self.call = calls[0]
            c = s.info[calls[0].id]['call']
            self.res = c.sret
            for r in rets(f):
                why = self.value(result, s.argT[0], r, (self.res, None))
                ctx.count('results')
                ctx.expect(why is None, 'result:%s' % self.name, r.where, '%s' % why)

    # ---- Python values: None when as required, else what is wrong
    def value(self, want, at, i, src):
        """object at address at, before instruction i, holds what is wanted of src = (address of the library value, position or None)"""
        return getattr(self, 'is_' + want[0])(want, at, i, src)

    def origin(self, q, i, depth=0):
        """address of the library value an object is a copy of"""
        s, f = self.s, self.f
        r, o = ptr_parts(q)
        if depth < 6 and r.op == 'alloca' and r is not self.res:
            cp = []
            for j in f.instrs():
                if j.is_call and j.short and s.info.get(j.id, {}).get('call') is not None and not exceptional(f, j.blk):
                    c = s.info[j.id]['call']
                    cls = j.short.rsplit('::', 1)[0]
                    if c.isctor and c.this is not None and c.this is r and len(c.ptypes) == 1 and c.ptypes[0] in (cls + ' const&', cls + '&&', cls + '&'):
                        cp.append((j, c.params[0]))
            if len(cp) == 1 and (cp[0][0].blk == i.blk or self.f.dominates(cp[0][0].blk, i.blk)):
                return ptr_add(self.origin(cp[0][1], cp[0][0], depth + 1), o)
        return q

    def of(self, q, src, fld, i):
        """q is the address of field fld of the value src (None: the value itself)"""
        note = (q.note or '').split('::')[-1]
        r, o = ptr_parts(self.origin(q, i))
        base, k = src
        if k is None:
            if r is not base:
                return False
        else:
            if r.op != 'elem' or r.args[0] is not base or r.args[1] is not k:
                return False
        if set(o) - {()}:
            return False
        off = o.get((), 0)
        if fld is None:
            return off == 0
        return note == fld if off else fld in FIRSTFIELD

    def content(self, i, at, ty):
        """what a call reads at an address"""
        return self.s.peek(api.state_before(self.s, i), at, ty)

    def field_ok(self, i, at, ty, src, fld):
        s = self.s
        if ty in ('int', 'double', 'bool'):
            v = self.content(i, at, {'int': 'i32', 'double': 'double', 'bool': 'i8'}[ty])
            if v.op == 'ret':
                j = self.f.by_id[v.args[1]]
                return j.short == TS + '::' + fld and self.of(s.info[j.id]['args'][0], src, None, i)
            if v.op == 'ev':
                return False
            q = place(v)
            return q is not None and self.of(q, src, fld, i)
        return self.of(at, src, fld, i)

    def is_dict(self, want, at, i, src):
        s, f = self.s, self.f
        got = {}
        for j in f.instrs():
            if not j.is_call or not j.short or not j.short.endswith('proxy::operator=') or exceptional(f, j.blk):
                continue
            a = s.info[j.id]['args']
            item = [k for k in f.instrs() if k.is_call and k.short and k.short.endswith('::operator[]') and s.info[k.id]['args'][0] is a[0] and 'object_operators' in k.dem]
            if len(item) != 1 or s.info[item[0].id]['args'][1] is not at:
                continue
            key = text(self.p, s.info[item[0].id]['args'][2])
            got.setdefault(key, []).append(j)
        for key, sub in want[1].items():
            js = got.pop(key, [])
            if len(js) != 1:
                return 'the entry %s is not set once' % key
            j = js[0]
            if not (j.blk == i.blk and j.pos < i.pos or j.blk != i.blk and f.dominates(j.blk, i.blk)):
                return 'the entry %s may not be set' % key
            v = s.info[j.id]['args'][1]
            ty = re.search(r'operator=<(.*)>\(', j.dem)
            ty = ty.group(1) if ty else ''
            if isinstance(sub, dict):
                w = self.is_dict(('dict', sub), v, j, src)
                if w:
                    return w
            elif not self.field_ok(j, v, ty if ty in ('int', 'double', 'bool') else 'object', src, sub):
                return 'the entry %s does not hold that part of the result' % key
        if got:
            return 'unknown entries %s' % ', '.join(str(x) for x in sorted(got, key=str))
        return None

    def is_tuple(self, want, at, i, src):
        s, f = self.s, self.f
        mk_ = [j for j in f.instrs() if j.is_call and j.short == 'boost::python::make_tuple' and s.info[j.id]['args'][0] is at]
        if len(mk_) != 1 or len(s.info[mk_[0].id]['args']) != 3:
            return 'the result is not a tuple of two'
        j = mk_[0]
        a = s.info[j.id]['args']
        tys = re.search(r'make_tuple<(.*)>\(', j.dem).group(1).split(', ')
        for n in (0, 1):
            ty = {'int': 'i32', 'double': 'double'}.get(tys[n])
            v = self.content(j, a[1 + n], ty or 'obj')
            if src[1] is None:
                ok = v.op == 'ev' and v.args[1] == n and v.args[0] is s.vals.get(self.call.id) or v.op == 'ld' and place(v) is not None and self.half(place(v), self.res, n, j)
            else:
                ok = self.half_of_elem(v, src, n, j)
            if not ok:
                return 'member %d of the tuple is not that part of the result' % (n + 1)
        return None

    def half(self, q, base, n, i):
        r, o = ptr_parts(q)
        return base is not None and r is base and (o.get((), 0) > 0) == (n == 1)

    def half_of_elem(self, v, src, n, i):
        if v.op in ('lo32', 'hi32'):
            if (v.op == 'hi32') != (n == 1):
                return False
            q = place(v.args[0])
            return q is not None and q.op == 'elem' and q.args[0] is src[0] and q.args[1] is src[1]
        q = place(v)
        if q is None:
            return False
        r, o = ptr_parts(q)
        return r.op == 'elem' and r.args[0] is src[0] and r.args[1] is src[1] and o.get((), 0) == 4 * n

    def is_list(self, want, at, i, src):
        s, f = self.s, self.f
        ap = [j for j in f.instrs() if j.is_call and j.short == 'boost::python::list::append' and s.info[j.id]['args'][0] is at and not exceptional(f, j.blk)]
        other = [j for j in f.instrs() if j.is_call and (j.short or '').startswith(('boost::python::list::', 'boost::python::detail::list_base::')) and s.info[j.id]['args'][0] is at and
                 j.short.split('::')[-1] not in ('append', 'list', '~list', 'list_base', '~list_base')]
        if other:
            return 'the list is changed by %s' % other[0].short
        if len(ap) != 1:
            return 'the list is not filled in one place'
        j = ap[0]
        ls = loops_of(f, j.blk)
        if len(ls) != 1 or not once(s, ls[0], [j]):
            return 'the list is not filled once per element'
        for r in ranges(s, ls[0]):
            if r.step != 1 or r.early or r.lo is not const(0):
                continue
            if want[1][0] == 'value':
                n = f.by_id.get(r.hi.args[1]) if r.hi.op == 'ret' else None
                if n is not None and n.short == TS + '::getLength' and self.of(s.info[n.id]['args'][0], src, None, j):
                    v = self.content(j, s.info[j.id]['args'][1], 'double')
                    for x in (place(v), s.info[j.id]['args'][1]):
                        if x is not None and x.op == 'ret':
                            k = f.by_id[x.args[1]]
                            if k.short == TS + '::operator[]' and s.info[k.id]['args'][1] is r.atom and self.of(s.info[k.id]['args'][0], src, None, j):
                                return None
                return 'the list does not hold the values of the series'
            if r.hi is not size_of(s, s.peek(s.instate[ls[0]], self.res, 'obj')):
                continue
            v = s.info[j.id]['args'][1]
            if want[1][0] == 'field':
                return None if self.of(v, (src[0], r.atom), want[1][1], j) or self.copied(v, (src[0], r.atom), want[1][1], j) else 'the elements of the list are not the %ss of the result' % want[1][1]
            return self.value(want[1], v, j, (src[0], r.atom))
        return 'the list does not hold all elements of the result in order'

    def copied(self, v, src, fld, i):
        return self.of(self.origin(v, i), src, fld, i)


FIRSTFIELD = ('name', 'data')
