"""No command line ends the interactive session or corrupts memory.

The interactive loop is flattened, with the function that executes a line kept as a call.  From every place that reads a line all ways are followed
until the next line is read or the program ends, including the way an exception of the executed command takes:
tests for a particular class of exceptions may go either way, a test for the standard base class succeeds.  Every class of exception thrown in the
repository is shown to derive from that base by a static assertion given to the compiler.
On every way: an exception leads through a handler that prints to the next line, never out of the program; the program ends only when the executed
line asked for it or the input has ended; the text got from the line editor is tested for null before use, released exactly once
with the matching function, and not used afterwards.  The function executing a line asks for the end only when the first word is quit or exit,
and always then.  No function of the tool calls a function that ends the process.
"""
import re
import subprocess

from gx import api, build
from gx.core import AnalysisBroken
from gx.lib import *
from gx.paths import rewrite, contradiction
from gx.walk import Walk, walks, alternatives
from gx.sym import neg_
from gx.terms import TRUE, FALSE, T, mk, poly, const, ptr_parts, subterms, NULL
from checks.c26 import literal

RULE = 'typestate of line memory and exceptional control flow over all ways between two reads of a line'
ENDERS = ('exit', '_exit', '_Exit', 'quick_exit', 'abort', 'std::terminate', 'std::abort', 'std::exit', 'kill', 'raise', '__assert_fail')
BASE = '_ZTISt9exception'
# calls of a handler taken not to throw: output without exceptions switched on, texts
CALM = re.compile(r'operator<<|__cxa_(begin|end)_catch|::what$|basic_string|allocator|basic_ostream|ostream|^free$|^strlen$|std::setw|std::flush|std::endl|^add_history$')


def run(ctx):
    ix = ctx.prog(['index']).index
    cli = {n: v for n, v in ix.items() if v['repo'] and not v['decl'] and '/cli/' in (v['file'] or '')}
    ctx.require('main' in ix and len(cli) > 10, 'the command-line tool was not found')

    def reach(n, goal, seen=None):
        seen = set() if seen is None else seen
        if n in seen or n not in ix:
            return False
        seen.add(n)
        return goal(n) or n in cli and any(reach(c, goal, seen) for c in ix[n]['calls'])
    reads = lambda n: reach(n, lambda m: m == 'readline')
    # functions of the tool that call a command with the words of a line, and read no line themselves
    WORDS = 'St6vectorINSt7__cxx1112basic_string'
    ex = [n for n, v in cli.items() if n != 'main' and '::doCommand(' not in v['dem'] and v['indirect'] and not reads(n)
          and (WORDS in n or any(WORDS in c for c in v['calls'])) and not re.match(r'^(_GLOBAL|__cxx)', v['dem'])]
    ctx.require(reads('main'), 'the tool reads no lines')
    ctx.require(ex, 'the function executing a line was not found')
    p = ctx.prog(['index'] + plan([r'^main$'] + ['^' + re.escape(cli[n]['dem']) + '$' for n in ex], ['^' + re.escape(cli[n]['dem']) + '$' for n in ex] + [r'^Cmd', r'^Command::', r'^genex::']))
    main = p.funcs['main']
    loop = Loop(ctx, p, main, set(ex))
    loop.decide()
    for n in ex:
        executor(ctx, p, p.funcs[n])
    if loop.everything():
        ctx.count('handlers of every class')
    else:
        thrown(ctx, ix, loop.tested)
    for n, v in sorted(cli.items()):
        ctx.count('functions of the tool')
        for c in v['calls']:
            d = ix[c]['dem'].split('(')[0] if c in ix else c
            ctx.expect(d not in ENDERS and c not in ENDERS, 'ends:%s' % v['dem'].split('(')[0], '%s:%s' % (v['file'], v['line']),
                       'the function calls %s, which ends the session' % d)
            ctx.expect(not d.endswith('::exceptions'), 'stream', '%s:%s' % (v['file'], v['line']), 'output is made to throw exceptions')


# ------------------------------------------------------------------ classes of exceptions
def thrown(ctx, ix, tested):
    ti = set()
    for n, v in ix.items():
        if v['repo'] and '__cxa_throw' in v['calls']:
            mine = [u for u in v['uses'] + v['refs'] if u.startswith('_ZTI')]
            ctx.require(mine, 'the class of an exception was not found in %s' % v['dem'])
            ti |= set(mine)
    ctx.require(ti, 'no exception is thrown')
    # classes with a handler of their own are followed there
    ctx.count('classes of exceptions', len(ti & tested))
    ti -= {x for x in tested if x != BASE}
    dem = subprocess.run(['c++filt'], input='\n'.join(sorted(ti)), capture_output=True, text=True).stdout.split('\n')
    import glob
    import os
    heads = ''.join('#include "%s"\n' % os.path.basename(h) for h in sorted(glob.glob(build.REPO + '/genex/*.hpp')))
    std = '#include <exception>\n#include <stdexcept>\n#include <new>\n#include <ios>\n#include <system_error>\n#include <type_traits>\n#include <typeinfo>\n'
    for d in dem:
        if not d.startswith('typeinfo for '):
            continue
        t = d[len('typeinfo for '):]
        code = std + heads + 'static_assert(%%sstd::is_base_of<std::exception, %s>::value, "");\n' % t
        ok = build.accepts(code % '')
        ctx.require(ok or build.accepts(code % '!'), 'the class %s of an exception is not known to the compiler' % t)
        ctx.count('classes of exceptions')
        ctx.expect(ok, 'class:%s' % t, t, 'exceptions of class %s are thrown, which the session does not catch' % t)


# ------------------------------------------------------------------ the loop
class Way:
    def __init__(self, path, facts, m, ins, threw, printed):
        self.path, self.facts, self.m, self.ins, self.threw, self.printed = path, facts, m, ins, threw, printed


class Loop:
    def __init__(self, ctx, p, f, ex):
        self.ctx, self.p, self.f = ctx, p, f
        self.s = ctx.sym(f, p, nogate=True, stable=stable_args)
        self.ex = ex
        self.tested = set()
        self.foreign = False

    def executes(self, i):
        if not i.is_call:
            return False
        if not i.short:
            # a command called directly
            return len(self.s.info[i.id].get('args') or []) == 2
        c = i.get('callee') or i.get('fn')
        return any(i.dem == self.p.index[n]['dem'] for n in self.ex)

    def decide(self):
        ctx, f, s = self.ctx, self.f, self.s
        reads = [i for i in f.instrs() if i.is_call and i.short == 'readline']
        runs = [i for i in f.instrs() if self.executes(i)]
        ctx.require(reads and runs, 'the loop reading and executing lines was not found')
        ctx.count('reads of a line', len(reads))
        ctx.count('executions of a line', len(runs))
        self.reads = reads
        for i in runs:
            ctx.expect(i.op == 'invoke', 'caught', i.where, 'an exception raised while the line is executed is not caught')
        for r in reads:
            v = s.vals[r.id]
            for w, end in self.ways(r):
                ctx.count('ways')
                ctx.count('ways of an exception', int(w.threw))
                self.memory(r, v, w, end)
                self.leaving(r, v, w, end)

        ctx.require(ctx.counts.get('ways of an exception') or any(i.op != 'invoke' for i in runs), 'no way of an exception was found')

    def everything(self):
        """exceptions of any class are caught"""
        self.foreign = True
        ws = [(w, end) for r in self.reads for w, end in self.ways(r) if w.threw]
        self.foreign = False
        return bool(ws) and all(end in self.reads for w, end in ws)

    def leaving(self, r, v, w, end):
        ctx, s = self.ctx, self.s
        what = end.op if end.op in ('ret', 'resume', 'unreachable') else 'read'
        if w.threw:
            ctx.expect(what == 'read', 'survives', end.where, 'after an exception raised by a command the session ends')
            if what == 'read':
                ctx.expect(w.printed, 'reported', end.where, 'an exception raised by a command is not reported')
            return
        if any(self.executes(i) for i in w.ins):
            ctx.expect(any(self.asked(x) or self.asked(neg_(x)) for x in w.facts), 'quits', end.where, 'whether the session goes on does not depend on the line executed')
        if what == 'read':
            # asked to end
            ctx.expect(not any(self.asked(x) for x in w.facts), 'quits', end.where, 'the session goes on although the line asked for its end')
            return
        if what == 'ret':
            ok = any(self.asked(x) for x in w.facts) or any(self.ended(x) for x in w.facts)
            ctx.expect(ok, 'ends', end.where, 'the session ends although neither the line asked for it nor the input has ended')
            no = any(x.op == 'streq' and any(literal(self.p, a) in ('n', 'no') for a in x.args) for x in w.facts)
            ctx.expect(not no, 'stays', end.where, 'the session ends although the user declined')

    def asked(self, x):
        """the executed line asked for the end"""
        if x.op == 'not':
            if x.args[0].op == 'eq0':
                x = x.args[0].args[0]
            else:
                return False
        return x.op == 'ret' and x.args[0] == self.f.name and self.executes(self.f.by_id[x.args[1]])

    def ended(self, x):
        return x.op == 'peq' and NULL in x.args and any(a in [self.s.vals[r.id] for r in self.reads] for a in x.args)

    def selector(self, c):
        """class tested for by a condition on the exception, and whether it holds when the condition does"""
        neg = False
        while c.op == 'not':
            c, neg = c.args[0], not neg
        for x in subterms(c):
            if x.op == 'typeid':
                return x.args[0].args[0] if isinstance(x.args[0], T) else x.args[0], not neg
        return None

    def ways(self, r):
        """[(Way, last instruction)] from the read r to the next read or the end"""
        f, s = self.f, self.s
        out = []
        start = [j for j in f.blocks[r.blk].ins if j.pos > r.pos]
        first = r.blk
        work = []
        fs0 = [x for x in s.facts(r.blk)]
        if r.op == 'invoke':
            work.append((r.get('succ')[0], (first,), tuple(fs0), (), (), False, False))
            work = [self.enter(r.blk, r.get('succ')[0], (first,), tuple(fs0), {}, (), False, False)]
        else:
            out += self.block(first, start, (first,), tuple(fs0), {}, (), False, False, work)
        n = 0
        while work:
            b, path, fs, m, ins, threw, printed = work.pop()
            n += 1
            if n > 20000:
                raise AnalysisBroken('too many ways between two reads')
            out += self.block(b, f.blocks[b].ins, path, fs, m, ins, threw, printed, work)
        return out

    def enter(self, b, nx, path, fs, m, ins, threw, printed):
        md = dict(m)
        for a, inc in self.s.minc.items():
            if a.args[0] == self.f.name and a.args[1] == nx:
                k = b if b in inc else None
                if k is None and 'entry' in inc:
                    # loop header reached from outside
                    k = 'entry' if nx in self.f.loops and b not in self.f.loops[nx] else None
                if k is not None:
                    md[a] = rewrite(inc[k], m) if m else inc[k]
                else:
                    md.pop(a, None)
        return (nx, path + (nx,), fs, md, ins, threw, printed)

    def block(self, b, instrs, path, fs, m, ins, threw, printed, work):
        f, s = self.f, self.s
        out = []
        inside = next((x.short == '__cxa_begin_catch' for x in reversed(ins) if x.is_call and x.short in ('__cxa_begin_catch', '__cxa_end_catch')), False)
        ins = list(ins)
        for i in instrs:
            if i in self.reads:
                out.append((Way(path, self.final(fs, path, m), m, ins, threw, printed), i))
                return out
            ins.append(i)
            if i.is_call and i.short in ('__cxa_begin_catch', '__cxa_end_catch'):
                inside = i.short == '__cxa_begin_catch'
            if i.is_call and threw and inside and i.short and ('operator<<' in i.dem or 'ostream' in i.dem or 'puts' in i.short or 'printf' in i.short or 'perror' in i.short):
                printed = True
        t = f.blocks[b].term
        ins = tuple(ins)
        if t.op in ('ret', 'resume', 'unreachable'):
            if t.op == 'unreachable' and any(j.is_call and j.short == '__cxa_rethrow' or j.is_call and j.short == '__cxa_throw' for j in instrs) or t.op != 'unreachable' or threw:
                out.append((Way(path, self.final(fs, path, m), m, ins, threw, printed), t))
            return out
        w = Walk(s, path, list(fs), m)
        for nx in dict.fromkeys(f.blocks[b].succs):
            if nx in path:
                # once around an inner loop is enough, unless it ends in a read
                if any(x in self.reads for x in f.blocks[nx].ins):
                    pass
                else:
                    continue
            nf, th = list(fs), threw
            if t.op == 'invoke' and nx == t.get('succ')[1] and nx != t.get('succ')[0]:
                if self.executes(t):
                    th = True
                elif t.short in ('__cxa_rethrow', '__cxa_throw'):
                    th = True
                elif threw and not CALM.search(t.short or t.dem or ''):
                    pass
                else:
                    continue
            elif t.op == 'invoke' and t.short in ('__cxa_rethrow', '__cxa_throw'):
                continue
            elif t.op == 'br' and len(t.get('succ')) == 2 and t.get('succ')[0] != t.get('succ')[1]:
                c = w.res(s.asbool(s.val(t.ops[0])))
                pos = t.get('succ')[0] == nx
                sel = self.selector(c)
                if sel is not None:
                    self.tested.add(sel[0])
                    if sel[0] == BASE and sel[1] != pos and not self.foreign:
                        continue
                else:
                    v = w.truth(c)
                    if v is not None and v != pos:
                        continue
                    s.cond_facts(c, pos, nf)
                    nf = list(dict.fromkeys(nf))
                    if contradiction(nf):
                        continue
            elif t.op == 'switch':
                c = w.val(s.val(t.ops[0]))
                if c.op == 'int':
                    go = [d for k, d in t.get('cases') or [] if int(str(k).split(':')[-1]) == c.args[0]] or [t.get('default')]
                    if nx not in go:
                        continue
            work.append(self.enter(b, nx, path, tuple(nf), m, ins, th, printed))
        return out

    def final(self, fs, path, m):
        w = Walk(self.s, path, list(fs), m)
        return list(fs)

    # ---- memory of the line editor
    def memory(self, r, v, w, end):
        ctx, s = self.ctx, self.s
        null = any(x.op == 'peq' and NULL in x.args and v in x.args for x in w.facts)
        freed, owner = [], None
        for i in w.ins:
            if i.is_call:
                a = [rewrite(x, w.m) if isinstance(x, T) and w.m else x for x in s.info[i.id].get('args') or []]
                hit = [x for x in a if isinstance(x, T) and (x is v or ptr_parts(x)[0] is v)]
                if i.short in ('free', 'std::free', 'rl_free') and a and a[0] is v:
                    if not null:
                        ctx.expect(not freed, 'memory:twice', i.where, 'the text of a line is released twice')
                    freed.append(i)
                    continue
                if i.short and i.short.startswith('std::unique_ptr') and owner is not None and a and a[0] is owner and '~' in i.short:
                    ctx.expect(not freed, 'memory:twice', i.where, 'the text of a line is released twice')
                    freed.append(i)
                    continue
                if hit and i.short and i.short.startswith('std::unique_ptr') and '~' not in i.short and self.frees(i, a):
                    owner = a[0]
                    continue
                if hit and i.short and re.match(r'operator delete|std::default_delete|std::unique_ptr|std::shared_ptr', i.short):
                    ctx.bad('memory:function', i.where, 'the text of a line is not released by the function that matches its allocation')
                    freed.append(i)
                    continue
                if hit:
                    self.use(i, v, w, null, freed)
            elif i.op in ('load', 'store'):
                q = rewrite(s.info[i.id]['ptr'], w.m) if w.m else s.info[i.id]['ptr']
                if ptr_parts(q)[0] is v:
                    self.use(i, v, w, null, freed)
                if i.op == 'store' and s.info[i.id]['val'] is v:
                    ctx.expect(ptr_parts(s.info[i.id]['ptr'])[0].op == 'alloca', 'memory:kept', i.where, 'the text of a line is kept beyond its line')
        if not null and end.op != 'unreachable':
            ctx.expect(len(freed) >= 1, 'memory:leak', r.where, 'the text of a line is not released')

    def frees(self, i, a):
        return any(x.op == 'global' and x.args[0] == 'free' for x in a if isinstance(x, T)) or any(
            x.op in ('alloca', 'ptr') and 'global(free)' in str(api.content_before(self.s, i, x, 'ptr')) for x in a[2:] if isinstance(x, T))

    def use(self, i, v, w, null, freed):
        ctx = self.ctx
        ctx.count('uses of line text')
        ctx.expect(not freed, 'memory:after', i.where, 'the text of a line is used after its release')
        ctx.expect(not null and any(x.op == 'not' and x.args[0].op == 'peq' and v in x.args[0].args for x in w.facts), 'memory:null', i.where,
                   'the text of a line is used without knowing that there is one')


# ------------------------------------------------------------------ the function executing a line
def executor(ctx, p, f):
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    n = 0
    quits = set()
    for w, b in [(v, b) for w, b, nx in walks(s, f.rpo[0]) for v in alternatives(s, w)]:
        t = f.blocks[b].term
        if not t.ops:
            continue
        n += 1
        v = w.val(s.val(t.ops[0]))
        said = {literal(p, a) for x in w.facts if x.op == 'streq' for a in x.args if literal(p, a) is not None and first(x)}
        end = bool(said & {'quit', 'exit'})
        if v in (const(1), TRUE):
            ctx.expect(end, 'asks', t.where, 'the end of the session is asked for by a line that is neither quit nor exit')
            quits |= said
        elif v in (const(0), FALSE):
            ctx.expect(not end, 'asks', t.where, 'quit or exit does not end the session')
        elif v.op == 'streq':
            ws = {literal(p, a) for a in v.args if literal(p, a) is not None and first(v)}
            ctx.expect(ws and ws <= {'quit', 'exit'}, 'asks', t.where, 'the end of the session is asked for by a line that is neither quit nor exit')
            quits |= ws
        else:
            ctx.bad('asks', t.where, 'whether the session ends does not follow from the line')
    for q in ('quit', 'exit'):
        ctx.expect(q in quits, 'word:%s' % q, f.where, 'the word %s does not end the session' % q)
    ctx.count('ways through the execution of a line', n)


def first(x):
    """a comparison of the first word"""
    return any(a.op == 'ld' and a.args[0].op == 'elem' and a.args[0].args[1] is const(0) for a in x.args)
