"""Routing of values: which value reaches which parameter of which step.

A route names a sink (a function kept as a call), what its object and arguments
must be, and is satisfied when every path to a normal return executes such a
call.  Values are compared as terms, objects by content, so temporaries,
copies and intermediate variables do not matter.
"""
from . import api
from .core import AnalysisBroken
from .models import ref_kind
from .terms import T, mk, const, ptr_parts, contains


class Env:
    """one flattened function under a routing rule"""

    def __init__(self, ctx, f, s, maps=None):
        self.ctx, self.f, self.s, self.maps = ctx, f, s, maps
        self.base = (1 if f.sret else 0) + (1 if len(f.args) - (1 if f.sret else 0) > len(f.params) else 0)
        self.roles = {}     # role -> instruction ids

    def this(self):
        return self.s.argT[1 if self.f.sret else 0]

    def arg(self, n):
        return self.s.argT[self.base + n]

    def argc(self, n):
        """content of a parameter passed by reference (or address)"""
        return mk('ld', self.arg(n), 'obj', ())

    # ---- what a value is
    def contents(self, i, p):
        """content terms of the object at p before i, followed through copies"""
        out = []
        seen = set()
        work = [(i, p)]
        while work:
            i, p = work.pop()
            if (i.id, p.uid) in seen or len(seen) > 30:
                continue
            seen.add((i.id, p.uid))
            c = api.content_before(self.s, i, p)
            for c1, _ in api.cases(self.s, c, []):
                out.append(c1)
                j = self.copier(c1)
                if j is not None:
                    out.pop()
                    work.append((j, self.s.info[j.id]['call'].params[0]))
        return out

    def copier(self, c):
        """the copying constructor call that made content c"""
        if c.op == 'made':
            j = self.f.by_id[c.args[1]]
            cl = self.s.info[j.id]['call']
            cls = cl.short.rsplit('::', 1)[0]
            if len(cl.ptypes) == 1 and cl.ptypes[0] in (cls + ' const&', cls + '&&', cls + '&'):
                return j
        return None

    def producer(self, c):
        """call whose result the value/content c is"""
        if c.op in ('ret', 'upd') and c.args[0] == self.f.name:
            return c.args[1]
        if c.op in ('ev', 'perm'):
            return self.producer(c.args[0])
        return None


# --- matchers: (env, instr, term, type) -> bool
def A(n):
    """parameter n of the analysed function, unchanged"""
    def m(e, i, t, ty):
        if t is e.arg(n):
            return True
        if ty and ref_kind(ty if ty[-1] in '&*' else ty + '&') == 'obj' and isinstance(t, T) and t.op not in ('int', 'fconst'):
            cs = e.contents(i, t)
            return bool(cs) and all(c is e.argc(n) for c in cs)
        if ty and ty[-1] == '&':
            v = api.content_before(e.s, i, t, ref_kind(ty))
            return v is e.arg(n) or v is mk('ld', e.arg(n), ref_kind(ty), ())
        return False
    m.text = 'argument %d' % (n + 1)
    return m


def DSET(n):
    def m(e, i, t, ty):
        sl = api.slot_of(t)
        return sl is not None and sl[0] is e.maps.ds and sl[1] is e.argc(n)
    m.text = 'the dataset named by argument %d' % (n + 1)
    return m


def PREP(n):
    def m(e, i, t, ty):
        alts = api.alternatives(e.s, t)
        for x in alts:
            sl = api.slot_of(x)
            if sl is not None and sl[0] is e.maps.paa and sl[1] is e.argc(n):
                continue
            if x.op == 'new':
                # newly made and stored under that name
                st = api.state_before(e.s, i)
                vs = [v for (p, ty2), v in st.cells.items() if ptr_parts(p)[0].op == 'node' and ty2 == 'ptr' and
                      ptr_parts(p)[0].args[0] is e.maps.paa and ptr_parts(p)[0].args[1] is e.argc(n)]
                if any(x in api.alternatives(e.s, v) for v in vs):
                    continue
                # or stored under that name before the operation returns
                keep = []
                for j in e.s.fn.instrs():
                    if j.op == 'store' and x in api.alternatives(e.s, e.s.info[j.id]['val']):
                        r = ptr_parts(e.s.info[j.id]['ptr'])[0]
                        if r.op == 'node' and r.args[0] is e.maps.paa and r.args[1] is e.argc(n):
                            keep.append(j)
                start = i.get('succ')[0] if i.op == 'invoke' else i.blk
                ends = [j for j in e.s.fn.instrs() if j.op == 'ret']
                if keep and not any(api.reaches_without(e.s, j, keep, start=start) for j in ends):
                    continue
            return False
        return bool(alts)
    m.text = 'the prepared structure named by argument %d' % (n + 1)
    return m


def R(role):
    """result of the call that plays the role"""
    def m(e, i, t, ty):
        ids = e.roles.get(role, set())
        if e.producer(t) in ids:
            return True
        if t.op == 'agg':
            return all(e.producer(x) in ids and x.op == 'ev' and x.args[1] == n for n, x in t.args[0])
        if isinstance(t, T) and t.op in ('alloca', 'arg', 'ptr', 'new', 'elem') or ty and ty[-1] in '&*':
            cs = e.contents(i, t)
            return bool(cs) and all(e.producer(c) in ids for c in cs)
        return False
    m.text = 'the result of %s' % role
    return m


def FC(v):
    def m(e, i, t, ty):
        return t is mk('fconst', v)
    m.text = v
    return m


def ANY(e, i, t, ty):
    return True


ANY.text = 'anything'


class Step:
    def __init__(self, role, sink, this=None, args=(), when=None):
        self.role, self.sink, self.this, self.args, self.when = role, sink, this, list(args), when


def check(ctx, e, label, steps, result=None, exclusive=()):
    """steps: each must be executed on every normal path with the stated values; result: matcher of the returned value.
    exclusive: sinks (short names) that may only be called in the listed roles"""
    f, s = e.f, e.s
    rets = [b for b in f.rpo if f.blocks[b].term.op == 'ret']
    bysink = {}
    for st in steps:
        bysink.setdefault(st.sink, []).append(st)
    for sink, sts in bysink.items():
        if sink == '<pointer>':
            calls = [i for i in f.calls() if i.dem is None and (i.get('fty') or '').startswith('double (ptr, ptr, double, ptr')]
        else:
            calls = [i for i in f.calls() if i.short == sink]
        played = {st.role: [] for st in sts}
        for i in calls:
            ok = [st for st in sts if fits(e, i, st)]
            # several roles may take the same call when their values coincide
            for st in ok:
                played[st.role].append(i)
            if not ok:
                st = sts[0] if len(sts) == 1 else nearest(e, i, sts)
                wrong = mismatches(e, i, st)
                ctx.bad('%s:%s:%s' % (label, sink, ','.join(str(w[0]) for w in wrong)), i.where,
                        '%s does not receive %s' % (sink, '; '.join(w[1] for w in wrong)))
        for st in sts:
            mine = played[st.role]
            e.roles[st.role] = {i.id for i in mine}
            ctx.count('routes')
            if not mine and calls:
                # reported above, or the role has no call of its own
                if any(k['key'].startswith('%s:%s:' % (label, sink)) for k in ctx.viol):
                    continue
            if st.when is not None:
                continue
            miss = [b for b in rets if api.reaches_without(s, b, mine)]
            ctx.expect(mine and not miss, '%s:missing:%s' % (label, st.role), f.where,
                       '%s can return without %s having been given its arguments' % (f.short, st.sink),
                       '%s: %s(%s)' % (label, st.sink, ', '.join(a.text for a in st.args)))
            c = s.info[mine[0].id].get('call') if mine else None
            if c is not None and not c.is_const:
                for i in mine:
                    after = set()
                    for n in f.blocks[i.blk].succs:
                        after |= f.reachable(n)
                    twice = [j for j in mine if j.blk in after and not loops_exceptional(f, j.blk) or j.blk == i.blk and j.pos > i.pos]
                    if twice:
                        ctx.bad('%s:twice:%s' % (label, st.role), i.where, '%s may be executed twice' % st.sink)
    for i in f.calls():
        if i.get('repo') and i.dem and i.short in exclusive and i.short not in bysink:
            ctx.bad('%s:extra:%s' % (label, i.short), i.where, '%s calls %s, which is not part of the operation' % (f.short, i.short))
    if result is not None:
        for b in rets:
            t = f.blocks[b].term
            ctx.count('results')
            if f.sret:
                v = s.argT[0]
                good = result(e, t, v, 'object&')
            else:
                v = s.val(t.ops[0])
                good = all(result(e, t, x, None) for x in api.alternatives(s, v))
            ctx.expect(good, '%s:result' % label, t.where, '%s does not return %s' % (f.short, result.text))


def loops_exceptional(f, b):
    from .loops import exceptional
    return exceptional(f, b)


def parts(e, i, st):
    info = e.s.info[i.id]
    if st.sink == '<pointer>':
        return info['fptr'], info['args'], ['genex::TimeSeries const&', 'genex::TimeSeries const&', 'double', 'ref&']
    c = info['call']
    return c.this, c.params, c.ptypes


def mismatches(e, i, st):
    this, params, types = parts(e, i, st)
    out = []
    if st.this is not None and (this is None or not st.this(e, i, this, None)):
        out.append(('object', 'as its object ' + st.this.text))
    if len(params) < len(st.args):
        out.append(('arity', 'its arguments'))
        return out
    for n, m in enumerate(st.args):
        if not m(e, i, params[n], types[n] if n < len(types) else None):
            out.append((n, '%s as argument %d' % (m.text, n + 1)))
    return out


def fits(e, i, st):
    return not mismatches(e, i, st)


def nearest(e, i, sts):
    return min(sts, key=lambda st: len(mismatches(e, i, st)))
