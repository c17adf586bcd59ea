"""Loading a data file starts from scratch and is all or nothing.

The loading function is flattened.  (1) What an empty dataset is comes from
the constructor: the value of every field it sets.  When the file is opened and
at every point where the library's exception leaves the function, each of these fields
has that value; an exception of any other kind raised by reading a number
ends in a handler that clears the dataset and raises the library's exception, on every path.
(2) The file is read twice through the same stream with the same separators, rewound in between:
the first pass counts lines and keeps the largest number of columns, goes on until there is no
further line, and a failing stream is refused.  (3) The second pass reads as many lines as asked for,
counts one row and appends one length for each, and walks over all columns of the line:
each column before the first wanted one is skipped, the column of the name is appended to the names,
and each other one is stored as the number it reads as, with nothing left over, in
row * width + column; row, column and width are shown to stay inside the storage allocated.
The width, the row count and the file name recorded at the end agree with this.
"""
from gx import api
from gx.lib import *
from gx.loops import ranges, iter_skips, once, loops_of, exceptional
from gx.walk import Walk, walks, iterations, leaves, header_phis
from gx.paths import contradiction
from gx.sym import neg_

RULE = 'typestate of the dataset at every exit; the two passes over the file compared; index ranges proved for every store'
BASES = {'_ZTISt16invalid_argument': {'_ZTISt16invalid_argument', '_ZTISt11logic_error', '_ZTISt9exception'},
         '_ZTISt12out_of_range': {'_ZTISt12out_of_range', '_ZTISt11logic_error', '_ZTISt9exception'}}
PARSE = ('std::stod', 'std::stof', 'std::stold', 'std::stoi', 'std::stol', 'std::stoll', 'std::stoul')
GOOD = {'std::basic_ios::operator bool': True, 'std::basic_ios::operator!': False, 'std::basic_ios::fail': False}


def run(ctx):
    p = ctx.prog(['index'] + plan([r'^%s::(TimeSeriesSet|loadData|isLoaded)\(' % SET]))
    f = ctx.one(p, SET + '::loadData')
    Load(ctx, p, f, ctx.sym(f, p, nogate=True, stable=stable_args)).run()


def empty(t):
    return t.op == 'str0' or t.op == 'vec' and t.args[0] is const(0)


class Load:
    def __init__(self, ctx, p, f, s):
        self.ctx, self.p, self.f, self.s = ctx, p, f, s
        self.this = s.argByName['this']
        self.prv = Prover(s)

    def calls(self, *names):
        return [i for i in self.f.instrs() if i.is_call and i.short in names]

    def args(self, i):
        return self.s.info[i.id]['args']

    def run(self):
        if self.fields():
            self.exits()
        self.failures()
        self.reading()

    # ------------------------------------------------------------ typestate
    def fields(self):
        """what an empty dataset looks like"""
        ctx = self.ctx
        g = ctx.one(self.p, SET + '::TimeSeriesSet', pred=lambda f: f.dem.endswith('()'))
        s = ctx.sym(g, self.p)
        this = s.argByName['this']
        rs = rets(g)
        ctx.require(len(rs) == 1, 'the constructor of a dataset has several ends')
        self.blank = {}
        for q, ty in s.universe:
            r, o = ptr_parts(q)
            if r is not this or set(o) - {()} or not o:
                continue
            v = s.peek(s.outstate[rs[0].blk], q, ty)
            if v.op == 'int' or v is NULL or empty(v):
                self.blank[(o.get((), 0), ty)] = (v, q)
        ctx.require(len(self.blank) >= 7, 'the constructor of a dataset does not initialise it')
        return True

    def state(self, i, key, what):
        ctx, s = self.ctx, self.s
        st = api.state_before(s, i)
        for (o, ty), (v, q) in sorted(self.blank.items()):
            x = s.peek(st, ptr_add(self.this, {(): o} if o else {}), ty)
            same = x is v or empty(v) and empty(x)
            ctx.expect(same, '%s:%s' % (key, name_of(q) or o), i.where, '%s while %s is not cleared' % (what, name_of(q) or 'a field'))

    def exits(self):
        ctx, f, s = self.ctx, self.f, self.s
        self.opens = [i for i in self.calls('std::basic_ifstream::basic_ifstream', 'std::basic_ifstream::open')
                      if len(self.args(i)) > 1]
        ctx.require(len(self.opens) == 1, 'the data file is not opened exactly once')
        self.stream = self.args(self.opens[0])[0]
        self.state(self.opens[0], 'start', 'a file is read')
        for i in throws(f):
            ctx.count('throws')
            t = api.throw_type(s, i)
            if t == api.GENEX_EXC:
                self.state(i, 'failed', 'loading fails')
            elif t in BASES:
                self.caught(i, t)
            else:
                ctx.bad('exception', i.where, 'loading raises something other than the library exception')
        for i in self.calls('__cxa_rethrow'):
            ctx.bad('exception', i.where, 'loading passes on an exception that is not its own')
        for i in self.calls('std::basic_ios::exceptions'):
            ctx.bad('exception', i.where, 'the stream may raise exceptions that are not the library exception')
        ops = [i for i in self.calls('std::basic_ifstream::is_open')]
        for r in rets(f):
            fs = set(s.facts(r.blk))
            ctx.expect(any(s.asbool(s.vals[i.id]) in fs for i in ops if i.id in s.vals) or self.good(self.args(self.opens[0]), fs),
                       'open', r.where, 'loading goes on without knowing that the file could be opened')

    def good(self, a, fs):
        return any(self.ok_fact(i, fs) for i in self.f.instrs() if i.is_call and i.short in GOOD)

    def ok_fact(self, i, fs):
        c = self.s.asbool(self.s.vals[i.id])
        return (c if GOOD[i.short] else neg_(c)) in fs

    def failures(self):
        ps = self.calls(*PARSE)
        self.ctx.require(ps, 'no number is read from the file')
        for i in ps:
            for t in sorted(BASES):
                self.caught(i, t)

    def caught(self, i, t):
        """the exception t raised by i ends in a handler that refuses the file"""
        ctx, f, s = self.ctx, self.f, self.s
        kind = 'text that is not a number' if 'invalid' in t else 'a number out of range'
        if not ctx.expect(i.op == 'invoke', 'caught:' + t, i.where, '%s is not turned into the library exception' % kind):
            return
        heads = set(loops_of(f, i.blk))
        work = [((i.blk, i.get('succ')[1]), {})]
        n = ends = 0
        while work:
            path, m = work.pop()
            n += 1
            ctx.require(n < 3000, 'too many paths out of a handler')
            b = path[-1]
            for a, inc in s.minc.items():
                if a.args[0] == f.name and a.args[1] == b and 'entry' not in inc and path[-2] in inc:
                    m = dict(m)
                    m[a] = rewrite(inc[path[-2]], m) if m else inc[path[-2]]
            term = f.blocks[b].term
            if any(j.is_call and j.short == '__cxa_throw' for j in f.blocks[b].ins):
                ends += 1
                continue
            if term.op in ('resume', 'ret') or b in heads or any(j.is_call and j.short == '__cxa_rethrow' for j in f.blocks[b].ins):
                ctx.bad('caught:' + t, i.where, '%s %s' % (kind, 'is passed over' if term.op == 'ret' or b in heads else 'is not turned into the library exception'))
                continue
            if term.op == 'unreachable':
                continue
            succ = f.blocks[b].succs
            if term.op == 'invoke':
                succ = [term.get('succ')[0]]
            elif term.op == 'br' and len(term.get('succ')) == 2:
                c = s.asbool(s.val(term.ops[0]))
                c = Walk(s, path, [], m).res(c)
                y, pos = (c.args[0], False) if c.op == 'not' else (c, True)
                ids = [x.args[0].args[0] for x in subterms(y) if x.op == 'typeid']
                if y.op == 'eq0' and len(ids) == 1:
                    succ = [term.get('succ')[0 if (ids[0] in BASES[t]) == pos else 1]]
                elif c.op == 'true' or c.op == 'false' or c is const(1) or c is const(0):
                    succ = [term.get('succ')[0 if c.op == 'true' or c is const(1) else 1]]
                else:
                    succ = [x for x in dict.fromkeys(succ) if not api.dead_edge(s, b, x)]
            for x in dict.fromkeys(succ):
                if x not in path[1:]:
                    work.append((path + (x,), m))
        ctx.expect(ends > 0, 'caught:' + t, i.where, '%s is not turned into the library exception' % kind)

    # ------------------------------------------------------------ reading
    def tokens(self, h, line):
        """the tokenizer of a line in loop h: (tokenizer, what the separators are)"""
        body = self.f.loops[h]
        ts = [i for i in self.calls('boost::tokenizer::tokenizer') if i.blk in body]
        if len(ts) != 1 or len(self.args(ts[0])) != 3:
            return None
        a = self.args(ts[0])
        if a[1] is not line:
            return None
        seps = [i for i in self.calls('boost::char_separator::char_separator') if self.args(i)[0] is a[2]]
        if len(seps) != 1 or not self.f.dominates(seps[0].blk, ts[0].blk):
            return None
        return a[0], tuple(self.args(seps[0])[1:])

    def source(self, p, tok):
        """'begin'/'end' if the iterator at p is a copy of that end of the tokens"""
        for _ in range(4):
            for i in self.f.instrs():
                if not i.is_call:
                    continue
                a = self.args(i) if 'args' in self.s.info.get(i.id, {}) else None
                if not a or a[0] is not p or i.short.endswith('::~token_iterator'):
                    continue
                if i.short in ('boost::tokenizer::begin', 'boost::tokenizer::end'):
                    return i.short.split('::')[-1] if a[1] is tok else None
                if i.short == 'boost::token_iterator::token_iterator' and len(a) == 2:
                    p = a[1]
                    break
            else:
                return None
        return None

    def columns(self, h, tok):
        """number of columns of the line: [value]"""
        out = []
        for i in self.calls('std::__distance', 'std::distance'):
            if i.blk in self.f.loops[h]:
                a = self.args(i)
                if self.source(a[0], tok) == 'begin' and self.source(a[1], tok) == 'end':
                    out.append(self.s.vals[i.id])
        return out

    def counters(self, h):
        """merges of loop h that count its complete iterations"""
        s = self.s
        out = []
        its = iterations(s, h)
        for a in header_phis(s, h):
            if s.minc[a]['entry'] is const(0) and its and all(
                    {m: c for m, c in padd(poly(w.val(s.minc[a][b])), {(a,): 1}, -1).items() if c} == {(): 1} for w, b in its):
                out.append(a)
        return out

    def reading(self):
        ctx, f, s = self.ctx, self.f, self.s
        gl = self.calls('std::getline')
        hs = {}
        for i in gl:
            ls = loops_of(f, i.blk)
            if ctx.expect(len(ls) >= 1 and self.args(i)[0] is self.stream, 'lines', i.where, 'a line is read outside the passes over the file'):
                hs.setdefault(ls[-1], []).append(i)
        ctx.require(len(hs) == 2, 'the file is no longer read in two passes')
        h1, h2 = sorted(hs, key=lambda h: f.rpo.index(h))
        ctx.require(not f.dominates(h2, h1) and f.dominates(h1, h2), 'the passes over the file are not one after the other')
        sep = []
        for h in (h1, h2):
            i = hs[h][0]
            ctx.expect(once(s, h, hs[h]), 'line', i.where, 'not exactly one line is read at a time')
            t = self.tokens(h, self.args(i)[1])
            if not ctx.expect(t is not None, 'tokens', i.where, 'the columns of a line are not taken from that line'):
                return
            sep.append(t)
            for w, b in iterations(s, h):
                c = any(self.ok_fact(j, w.fset) for j in w.instrs() if j.is_call and j.short in GOOD)
                ctx.expect(c, 'line-read', i.where, 'a line that could not be read is used')
        ctx.expect(sep[0][1] == sep[1][1], 'separators', hs[h2][0].where, 'the two passes over the file separate columns differently')
        if not self.first(h1, sep[0][0], hs[h1][0]):
            return
        self.rewind(h1, h2)
        self.second(h2, sep[1][0], hs[h2][0])

    def first(self, h, tok, gl):
        """lines and largest number of columns"""
        ctx, f, s = self.ctx, self.f, self.s
        cs = self.counters(h)
        n = self.columns(h, tok)
        ok = ctx.expect(len(n) == 1, 'columns', gl.where, 'the number of columns of a line is not determined')
        if not ok:
            return False
        n = n[0]
        self.lines = cs
        self.widest = []
        its = iterations(s, h)
        for a in header_phis(s, h):
            if s.minc[a]['entry'].op != 'int' or s.minc[a]['entry'].args[0] < 0:
                continue
            good = its and s.minc[a]['entry'] is const(0)
            for w, b in its:
                v = w.val(s.minc[a][b])
                if v.op == 'max':
                    good = good and set(v.args) == {a, n}
                    continue
                good = good and v in (a, n) and all(
                    self.prv.prove(padd(poly(x), poly(v), -1), w.facts) for x in (a, n))
            if good:
                self.widest.append(a)
        ctx.expect(self.lines, 'count', gl.where, 'the lines of the file are not counted')
        ctx.expect(self.widest, 'widest', gl.where, 'the largest number of columns is not determined over all lines')
        for w, b, nx in leaves(s, h):
            bad = any(self.s.asbool(s.vals[j.id]).op and (neg_(s.asbool(s.vals[j.id])) if GOOD[j.short] else s.asbool(s.vals[j.id])) in w.fset
                      for j in w.instrs() if j.is_call and j.short in GOOD)
            ctx.expect(bad, 'all-lines', f.blocks[b].term.where, 'counting lines may stop before the end of the file')
        return bool(self.lines and self.widest)

    def rewind(self, h1, h2):
        ctx, f, s = self.ctx, self.f, self.s
        body = f.loops[h1]
        for w, b, nx in walks(s, h1, None, lambda b, n: n == h2):
            if nx != h2:
                continue
            names = [i.short for i in w.instrs() if i.is_call]
            seek = [i for i in w.instrs() if i.is_call and i.short == 'std::istream::seekg' and self.args(i)[0] is self.stream]
            zero = [i for i in w.instrs() if i.is_call and i.short == 'std::fpos::fpos' and self.args(i)[1] is const(0)]
            zero = zero or [i for i in seek if len(self.args(i)) > 1 and self.args(i)[1] is const(0)]
            ctx.expect(seek and zero and 'std::basic_ios::clear' in names and
                       names.index('std::basic_ios::clear') < names.index('std::istream::seekg'), 'rewind', f.blocks[h2].term.where,
                       'the second pass does not start at the beginning of the file')
            bad = any(i.is_call and i.short == 'std::basic_ios::bad' and neg_(s.asbool(s.vals[i.id])) in w.fset for i in w.instrs()) or \
                any(i.is_call and i.short == 'std::basic_ios::eof' and s.asbool(s.vals[i.id]) in w.fset for i in w.instrs())
            ctx.expect(bad, 'broken-stream', f.blocks[h1].term.where, 'a file that cannot be read counts as an empty one')
            ctx.count('ways from the first to the second pass')

    # ------------------------------------------------------------ second pass
    def hyps(self, facts):
        """facts with the name column known to be there or not"""
        s = self.s
        h = self.named
        w = Walk(s, (), facts, {})
        v = None
        for x in (s.asbool(h), h):
            v = w.truth(x) if v is None else v
        alts = [v] if v is not None else [True, False]
        out = []
        for a in alts:
            m = {h: const(1 if a else 0)}
            out.append((m, [rewrite(x, m) for x in facts]))
        return out

    def le(self, a, b, facts):
        return self.prv.prove(padd(poly(a), poly(b), -1), facts)

    def second(self, h, tok, gl):
        ctx, f, s = self.ctx, self.f, self.s
        body = f.loops[h]
        args = s.argByName
        ctx.require({'maxNumRow', 'startCol', 'hasNameCol', 'filePath'} <= set(args), 'parameters of loading changed')
        first, named, limit = args['startCol'], args['hasNameCol'], args['maxNumRow']
        self.named = named
        rows = self.counters(h)
        rng = [r for r in ranges(s, h) if r.atom in rows and r.step == 1 and r.lo is const(0) and not r.early]
        if not ctx.expect(rng, 'rows', gl.where, 'rows are not read one after the other up to a number known beforehand'):
            return
        row, total = rng[0].atom, rng[0].hi
        ctx.expect(not [1 for w, b, n in leaves(s, h) if not self.le(total, row, w.facts)], 'rows', gl.where, 'reading may stop before all rows are read')
        # number of rows
        for w, b, n in walks(s, 0, None, lambda b, n: n == h):
            if n != h:
                continue
            ctx.count('ways to the second pass')
            t = w.val(total)
            ok = False
            for ln in self.lines:
                if self.le(limit, const(0), w.facts):
                    ok = ok or t is ln
                elif not self.le(const(1), limit, w.facts):
                    pass
                elif t.op == 'min':
                    ok = ok or set(t.args) == {limit, ln}
                elif t is ln:
                    ok = ok or self.le(ln, limit, w.facts)
                elif t is limit:
                    ok = ok or self.le(limit, ln, w.facts)
            ctx.expect(ok, 'limit', f.blocks[h].term.where, 'the number of rows read is not the number asked for')
        # storage
        rs = rets(f)
        ctx.require(len(rs) >= 1, 'loading never returns')
        from checks.c21 import null_field
        roles = set_roles(ctx)
        doff = null_field(ctx, self.p, SET + '::isLoaded')
        dat = ptr_add(self.this, {(): doff} if doff else {})
        n = self.columns(h, tok)
        if not ctx.expect(len(n) == 1, 'columns', gl.where, 'the number of columns of a line is not determined'):
            return
        ncol = n[0]
        datas = {s.peek(api.state_before(s, r), dat, 'ptr') for r in rs}
        mem = [i for i in f.instrs() if i.is_call and i.short in ('operator new[]', 'operator new') and s.vals[i.id] in datas]
        if not ctx.expect(len(datas) == 1 and len(mem) == 1 and f.dominates(mem[0].blk, h), 'storage', rs[0].where,
                          'the values are not kept in storage allocated for this file'):
            return
        base = datas.pop()
        size = poly(self.args(mem[0])[0])
        size = {tuple(sorted(x.uid for x in k)): c for k, c in size.items() if c}
        raw = next((a for a in self.widest if size == {tuple(sorted(x.uid for k in poly(total) for x in (a,) + k)): 8}), None)
        if not ctx.expect(raw is not None, 'storage', mem[0].where, 'the storage is not one value for each row and column of the file'):
            return
        # columns of a line: a loop over all tokens
        inner = sorted({ls[-1] for i in self.calls('boost::iterators::operator!=', 'boost::iterators::operator==') if i.blk in body
                        for ls in [loops_of(f, i.blk)] if ls[-1] != h})
        if not ctx.expect(len(inner) == 1, 'columns', gl.where, 'the columns of a line are not visited one after the other'):
            return
        g = inner[0]
        cols = self.counters(g)
        ctx.expect(cols, 'columns', gl.where, 'columns are not counted while they are visited')
        ctx.expect(not iter_skips(s, h, [f.blocks[g].ins[0]]), 'columns', gl.where, 'the columns of a line may be left out')
        it = self.iterator(g, tok, gl)
        if it is None or not cols:
            return
        col = cols[0]
        same = {a: row for a in rows}
        same.update({a: col for a in cols})
        base_facts = [le0(padd({}, {(row,): 1}, -1)), le0(padd(padd({(row,): 1}, poly(total), -1), {(): 1})),
                      le0({(col,): -1}), le0(padd(padd({(col,): 1}, poly(ncol), -1), {(): 1})),
                      le0(padd(poly(ncol), {(raw,): 1}, -1)), le0({(named,): -1}), le0({(named,): 1, (): -1}), le0(padd({}, poly(ncol), -1))]
        ctx.assume('the file does not change between the two passes over it')
        names = None
        stores = [i for i in f.instrs() if i.op == 'store' and root_of(s.info[i.id]['ptr']) is base]
        ctx.require(stores, 'no value is stored')
        for i in stores:
            ctx.expect(i.blk in f.loops[g], 'store', i.where, 'a value is stored outside the pass over the columns')
        for i in f.instrs():
            if i.is_call and (i.dem or '').startswith('llvm.mem') and root_of(self.args(i)[0]) is base:
                ctx.expect((i.dem or '').startswith('llvm.memset') and i.blk not in body and f.dominates(i.blk, h), 'store', i.where, 'values are written in an unknown way')
        vec = {(o, ty): q for (o, ty), (v, q) in self.blank.items() if v.op == 'vec'}
        lens = roles.at(self.this, 'getItemLength')
        nm = [ptr_add(self.this, {(): o}) for (o, ty) in vec if ptr_add(self.this, {(): o}) is not lens]
        ctx.require(len(nm) == 1, 'a dataset has more lists than lengths and names')
        nm = nm[0]
        push = [i for i in f.instrs() if i.is_call and i.short in ('std::vector::push_back', 'std::vector::emplace_back')]
        other = [i for i in f.instrs() if i.is_call and i.short.startswith('std::vector::') and s.info[i.id].get('call') is not None
                 and s.info[i.id]['call'].this in (nm, lens) and not s.info[i.id]['call'].is_const and i not in push
                 and i.short not in ('std::vector::clear', 'std::vector::reserve')]
        for i in other:
            ctx.bad('lists', i.where, 'the lengths or names are changed by something other than appending')
        width = None
        for w, b in iterations(s, g):
            ctx.count('ways through a column')
            st = [i for i in stores if i.blk in w.set]
            pn = [i for i in push if i.blk in w.set and self.args(i)[0] is nm]
            pl = [i for i in push if i.blk in w.set and self.args(i)[0] is lens]
            where = f.blocks[b].term.where
            for i in pl:
                ctx.bad('lengths', i.where, 'a length is recorded for a column')
            for m, facts in self.hyps(list(w.facts) + [x for x in s.facts(g)]):
                hyp = [rewrite(rewrite(x, same), m) for x in facts + base_facts]
                if contradiction(hyp) or self.prv.absurd(hyp):
                    continue
                hh, ff = m[named], first
                if pn:
                    ok = len(pn) == 1 and not st and hh is const(1) and self.le(col, ff, hyp) and self.le(ff, col, hyp)
                    ctx.expect(ok, 'name', pn[0].where, 'a column that is not the name is used as name')
                    ctx.expect(self.token(pn[0], 1, it), 'name', pn[0].where, 'the name recorded is not the text of its column')
                elif st:
                    ctx.expect(len(st) == 1, 'store', st[0].where, 'a column is stored more than once')
                    i = st[0]
                    _, o = ptr_parts(s.info[i.id]['ptr'])
                    rp, cp = {}, {}
                    for k, c in o.items():
                        k = [same.get(x, x) for x in k]
                        if row in k:
                            k.remove(row)
                            rp[tuple(k)] = rp.get(tuple(k), 0) + c
                        else:
                            cp[tuple(k)] = cp.get(tuple(k), 0) + c
                    if any(c % 8 for c in list(rp.values()) + list(cp.values())):
                        ctx.bad('store', i.where, 'a value is stored at an unaligned place')
                        continue
                    wd = mkpoly({k: c // 8 for k, c in rp.items() if c})
                    cc = rewrite(mkpoly({k: c // 8 for k, c in cp.items() if c}), m)
                    width = width or wd
                    ctx.expect(wd is width, 'width', i.where, 'rows are placed at different distances')
                    exact = add(col, mkpoly(padd(padd({}, poly(ff), -1), poly(hh), -1)))
                    ctx.expect(cc is exact, 'place', i.where, 'a value is not stored at the place of its column')
                    wd = rewrite(wd, m)
                    inside = self.le(const(0), cc, hyp) and self.le(add(cc, const(1)), wd, hyp) and self.le(wd, raw, hyp)
                    ctx.expect(inside, 'inside', i.where, 'a value may be stored outside its row or outside the storage')
                    ctx.expect(self.number(i, w, it), 'number', i.where, 'the value stored is not the number its column reads as, or text after it is ignored')
                else:
                    ctx.expect(self.le(add(col, const(1)), ff, hyp), 'skipped', where, 'a wanted column is left out')
        # one length per row
        pl = [i for i in push if self.args(i)[0] is lens]
        ctx.expect(pl and all(i.blk in body and i.blk not in f.loops[g] for i in pl) and once(s, h, pl), 'lengths', gl.where, 'not exactly one length is recorded for each row')
        for i in pl:
            q = self.args(i)[1]
            v = s.peek(api.state_before(s, i), q, 'i32')
            d = padd(padd(poly(v), poly(ncol), -1), padd({(first,): 1}, {(named,): 1}))
            ctx.expect(not {k: c for k, c in d.items() if c}, 'length', i.where, 'the length recorded is not the number of values in the row')
            ok = all(self.le(const(0), rewrite(v, m), [rewrite(x, m) for x in fs + base_facts if col not in set(subterms(x))])
                     for m, fs in self.hyps(list(s.facts(i.blk))))
            ctx.expect(ok, 'length', i.where, 'the length recorded may be negative')
        for r in rs:
            st = api.state_before(s, r)
            x = s.peek(st, roles.at(self.this, 'getItemCount'), 'i32')
            ctx.expect(x in rows or x is total or x.op == 'size' and lens in subterms(x), 'recorded-count', r.where, 'the number of series recorded is not the number of rows read')
            x = s.peek(st, roles.at(self.this, 'getMaxLength'), 'i32')
            ctx.expect(width is not None and x is width, 'recorded-width', r.where, 'the width recorded is not the distance between rows')
            for q, what in ((lens, 'lengths'), (nm, 'names')):
                x = s.peek(st, q, 'obj')
                ctx.expect(x in s.minc and x.args[1] == h and empty(s.minc[x].get('entry', NULL)), 'recorded-' + what, r.where, 'the %s recorded are not those of this file alone' % what)
            fp = [ptr_add(self.this, {(): o}) for (o, ty), (v, q) in self.blank.items() if v.op == 'str0']
            src = args['filePath']
            ctx.expect(fp and all(s.peek(st, q, 'obj') is s.peek(s.instate[0], src, 'obj') for q in fp), 'recorded-file', r.where, 'the file recorded is not the file read')
            for (o, ty), (v, q) in self.blank.items():
                if ty in ('i8', 'i1'):
                    x = s.peek(st, ptr_add(self.this, {(): o}), ty)
                    ctx.expect(x is v, 'recorded-flag', r.where, 'a flag of the dataset is left from earlier or set by loading')

    def iterator(self, g, tok, gl):
        """the iterator that visits every token once in loop g"""
        ctx, f, s = self.ctx, self.f, self.s
        body = f.loops[g]
        cmp = [i for i in self.calls('boost::iterators::operator!=', 'boost::iterators::operator==') if i.blk in body]
        it = None
        for i in cmp:
            a = self.args(i)
            k = [self.source(x, tok) for x in a]
            if sorted(map(str, k)) == ['begin', 'end']:
                it = a[k.index('begin')]
        if not ctx.expect(it is not None, 'visit', gl.where, 'the columns of a line are not visited from the first to the last'):
            return None
        inc = [i for i in f.instrs() if i.is_call and i.short.endswith('::operator++') and i.short.startswith('boost::iterators') and it in self.args(i)]
        ctx.expect(inc and all(i.blk in body for i in inc) and once(s, g, inc), 'visit', gl.where, 'a column may be visited twice or left out')
        for w, b, n in leaves(s, g):
            ok = any((neg_(s.asbool(s.vals[i.id])) if i.short.endswith('!=') else s.asbool(s.vals[i.id])) in w.fset for i in cmp if it in self.args(i))
            ctx.expect(ok, 'visit', f.blocks[b].term.where, 'the pass over the columns may end before the last one')
        return it

    def token(self, i, k, it):
        """argument k of the call i is the text of the current column"""
        a = self.args(i)[k]
        return any(j.is_call and j.short in ('boost::iterators::detail::iterator_facade_base::operator*', 'boost::iterators::detail::iterator_facade_base::operator->')
                   and self.args(j)[0] is it and self.s.vals[j.id] is a and self.f.dominates(j.blk, i.blk) and j.blk in self.f.loops[loops_of(self.f, i.blk)[-1]]
                   for j in self.f.instrs())

    def number(self, i, w, it):
        s = self.s
        v = s.info[i.id]['val']
        ps = [j for j in self.calls('std::stod') if s.vals[j.id] is v and j.blk in w.set]
        if len(ps) != 1 or not self.token(ps[0], 0, it):
            return False
        j = ps[0]
        if self.args(j)[1] is NULL:
            return False
        for x in w.facts:
            if x.op != 'eq0':
                continue
            subs = list(subterms(x))
            if not any(t.op == 'upd' and j.id in t.args for t in subs):
                continue
            for t in subs:
                if t.op == 'call' and t.args[0] == 'std::basic_string::find_first_not_of':
                    lit = [q.args[0] for q in subterms(t) if q.op == 'global']
                    txt = [self.p.globals.get(q, {}).get('init') for q in lit]
                    if len(txt) == 1 and isinstance(txt[0], dict) and txt[0].get('str') is not None and not txt[0]['str'].strip(' \t\r\n\v\f\0') and \
                            padd(poly(x.args[0]), {(t,): 1}, -1).get((), 0) in (1, -1):
                        return True
                if t.op in ('call', 'strlen', 'size') and (t.op != 'call' or t.args[0] in ('std::basic_string::size', 'std::basic_string::length')):
                    return True
        return False
