"""A save that returns normally has written everything.

Every function of the repository that opens a file for writing must be part of
one of the analysed operations (the saving operations of the interface and of
the dataset classes, flattened).  In each of them a typestate analysis follows
the file stream along every path: opened, written to, flushed or closed,
tested.  A normal return is allowed only after a close or flush that follows
the last output and a test of the stream's state that succeeded; an output
made later, a test made before the flush, a test of something weaker, a state
that was cleared, or an exception that was swallowed does not count.  Where the
file is opened, it must already be certain that there is something to save: the
field that decides "loaded" or "grouped" was tested, or the whole output was
produced in memory first.  The path opened is the path given, and refusals use
the library's own exception.
"""
import re

from gx import api
from gx.streams import *

RULE = 'typestate of output streams (open, output, flush, tested) on every path; nothing-to-save guard dominates the open'
NEED = {'genex::GenexAPI::saveDataset': 'loaded', SET + '::saveData': 'loaded', 'genex::GenexAPI::saveGroupsOld': 'grouped',
        GSET + '::saveGroupsOld': 'grouped', 'genex::GenexAPI::saveGroups': 'grouped', 'genex::saveToFile': 'grouped'}


def null_field(ctx, p, short):
    f = ctx.one(p, short)
    s = ctx.sym(f, p, nogate=True)
    for r in rets(f):
        v = s.asbool(s.val(r.ops[0]))
        if v.op == 'not' and v.args[0].op == 'peq' and NULL in v.args[0].args:
            for x in v.args[0].args:
                if x.op == 'ld':
                    root, o = ptr_parts(x.args[0])
                    if root is s.argT[0] and not set(o) - {()}:
                        return o.get((), 0)
    ctx.require(False, '%s no longer tests one field' % short)


def non_null(fs, off):
    for f in fs:
        if f.op == 'not' and f.args[0].op == 'peq' and NULL in f.args[0].args:
            for x in f.args[0].args:
                if x.op == 'ld' and not set(ptr_parts(x.args[0])[1]) - {()} and ptr_parts(x.args[0])[1].get((), 0) == off:
                    return True
    return False


def run(ctx):
    p = ctx.prog(['index'] + plan([r'^genex::GenexAPI::save', r'^%s::save' % SET, r'^%s::save' % GSET, r' genex::saveToFile<', r' %s::save<' % GSET,
                                   r'^%s::isGrouped\(' % GSET, r'^%s::isLoaded\(' % SET]))
    off = {'loaded': null_field(ctx, p, SET + '::isLoaded'), 'grouped': null_field(ctx, p, GSET + '::isGrouped')}
    # every other place that opens a file for writing is analysed on its own
    inside = set()
    for f in p.funcs.values():
        inside |= {f.dem} | set(f.inlined)
    extra = []
    for d in p.index.values():
        if d.get('repo') and any('basic_ofstream' in c and ('C1E' in c or 'C2E' in c or '4open' in c) or c == 'creat' for c in d.get('calls', [])):
            ctx.count('functions opening output files')
            if d['dem'] not in inside:
                extra.append(d['dem'])
    ctx.require(ctx.counts.get('functions opening output files'), 'no function opening an output file found')
    if extra:
        q = ctx.prog(plan(['^' + re.sub(r'([.\[\]()*+?{}|^$\\])', r'\\\1', d) + '$' for d in extra]))
        for f in q.funcs.values():
            operation(ctx, q, f, off)
    n = 0
    for f in p.funcs.values():
        if f.short not in NEED:
            continue
        n += 1
        operation(ctx, p, f, off)
    ctx.require(n >= 6, 'saving operations not found')
    for f in p.funcs.values():
        if f.short == GSET + '::save':
            s = ctx.sym(f, p, nogate=True, stable=stable_args)
            only_own_exceptions(ctx, s, 'save')
            for r in rets(f):
                ctx.expect(all(non_null(fs, off['grouped']) for fs in ways(s, r.blk)), 'save:nothing', r.where,
                           'saving groups goes on without groups')
            for i in f.instrs():
                if i.is_call and i.dem and 'boost::' in i.dem and i.short.endswith('operator<<'):
                    ctx.expect(non_null(s.facts(i.blk), off['grouped']), 'save:nothing', i.where, 'output starts although there are no groups')


def operation(ctx, p, f, off):
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    name = f.short.split('::', 1)[1]
    ctx.count('operations')
    S = Streams(s)
    ctx.require(S.openers, '%s opens no file' % f.short)
    only_own_exceptions(ctx, s, name)
    path = [a for a in s.argT if a.args[1] not in ('this', 'sret')]
    for i in S.openers:
        c = s.info[i.id]['call']
        a = c.params[0]
        ctx.expect(root_of(a) in path or a.op == 'cstr' and a.args[0].op == 'ld' and root_of(a.args[0].args[0]) in path,
                   name + ':path', i.where, 'the file opened is not the one named by the caller')
        ctx.expect(f.short not in NEED or something(ctx, s, i, S, off[NEED[f.short]]), name + ':nothing', i.where,
                   'the file is opened before it is certain that there is something to save')
    for A in sorted({S.target(i) for i in S.openers}, key=lambda t: t.uid):
        typestate(ctx, s, S, A, name)


def something(ctx, s, i, S, off):
    if all(non_null(fs, off) for fs in ways(s, i.blk)):
        return True
    # produced in memory: an archive was written completely before
    ar = [j for j in s.fn.instrs() if j.is_call and j.dem and 'boost::archive' in j.dem and j.short.endswith('operator<<')]
    return bool(ar) and not api.reaches_without(s, i, ar) and all(j.blk != i.blk or j.id < i.id for j in ar)


def typestate(ctx, s, S, A, name):
    """phases: closed, unchecked, ok, dirty, flushed, verified, void"""
    f = s.fn
    tied = {A}
    for i in f.instrs():
        if i.is_call and i.dem and 'boost::iostreams' in i.dem and last(i) == 'push':
            args = s.info[i.id]['args']
            if any(S.stream_of(a) is A for a in args[1:]):
                tied.add(root_of(args[0]))
    ctx.count('file streams')
    writes = 0

    def step(i, st):
        """effect of a call on the phase"""
        ph, test = st
        tg = S.target(i)
        op = last(i)
        involved = any(S.stream_of(a) in tied for a in s.info[i.id].get('args') or [])
        if not involved:
            return st
        if i.short in OPENERS:
            return ('unchecked' if i in S.openers else 'closed', None)
        if tg is A and op in ('close', 'flush') or op in ('flush',) and tg is A:
            return ('void' if ph == 'void' else 'flushed' if ph != 'closed' else ph, None)
        if '~' in op and tg is A:
            return st
        if tg is A and op in GOOD_TRUE + GOOD_FALSE:
            return (ph, i.id)
        if tg is A and op in QUIET:
            return (ph, test) if op != 'is_open' else (ph, ('open', i.id))
        if tg is A and op in ('clear', 'setstate', 'swap'):
            return ('void', None)
        return ('void' if ph == 'void' else 'dirty', None)

    def on_edge(b, n, st):
        ph, test = st
        if test is None:
            return st
        tid = test[1] if isinstance(test, tuple) else test
        v = s.vals.get(tid)
        ins = [j for j in f.instrs() if j.id == tid][0]
        good = None
        for fct in edge(s, b, n):
            neg = fct.op == 'not'
            g = fct.args[0] if neg else fct
            if g is v or g is s.asbool(v):
                good = not neg
        if good is None:
            return st
        if last(ins) in GOOD_FALSE:
            good = not good
        if isinstance(test, tuple):
            return ('ok' if good and ph == 'unchecked' else ph if good else 'failed', None)
        if not good:
            return ('failed', None)
        return ({'flushed': 'verified', 'unchecked': 'ok', 'dirty': 'dirty'}.get(ph, ph), None)

    seen = set()
    work = [(0, ('closed', None))]
    wr = set()
    bad = {}
    while work:
        b, st = work.pop()
        if (b, st) in seen:
            continue
        seen.add((b, st))
        stop = False
        for i in f.blocks[b].ins:
            if i.is_call:
                n = step(i, st)
                if n[0] == 'dirty':
                    wr.add(i.id)
                st = n
            if i.op == 'ret':
                if st[0] in ('closed', 'ok', 'verified'):
                    ctx.expect(True, name + ':return', i.where, '')
                else:
                    bad[st[0]] = i
                stop = True
        if stop:
            continue
        for n in f.blocks[b].succs:
            if not api.dead_edge(s, b, n):
                t = f.blocks[b].term
                work.append((n, on_edge(b, n, st) if t.op == 'br' else st))
    why = {'unchecked': 'without having tested whether the file could be opened', 'failed': 'although the file is known to have failed',
           'dirty': 'with output that was neither flushed nor closed and tested', 'flushed': 'without testing the state after the last output',
           'void': 'although the state of the file was cleared'}
    for ph, i in sorted(bad.items()):
        ctx.bad('%s:return-%s' % (name, ph), i.where, 'the operation returns normally ' + why[ph])
    ctx.require(wr, '%s: no output to the file found' % name)
    ctx.count('outputs', len(wr))
