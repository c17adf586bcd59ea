"""Commands of the command-line tool use the arguments they were given, as their usage line documents.

The commands are found where the table of commands is filled: a word and the object behind it, whose class gives the code and the usage line.
The usage line is parsed into its arguments; nested brackets give the numbers of arguments it allows and, for each number, which word is which argument.
The code of a command is then looked at once for every number of words: conditions on the number of words are decided, the ways they
cut off are removed, merges of the remaining ways are resolved (conditional constant propagation; no input is chosen).
On what remains no word beyond the given ones is touched, undocumented numbers reach no library operation and report failure,
and for documented numbers the library operation of a frozen table is called once on every successful way,
each parameter being the documented word, converted for its type, or the documented default when it is left out.
The line reader never calls a command without a word, and calls the one named by the first word with all the words.
"""
import re

from gx import api
from gx.core import AnalysisBroken
from gx.lib import *
from gx.loops import exceptional
from gx.paths import rewrite
from gx.prove import Prover
from gx.terms import TRUE, FALSE, T, mk, poly, const, ptr_add, ptr_parts, subterms, NULL

RULE = 'conditional constant propagation over the number of words, per command and number, against the parsed usage line and a frozen table of roles'
API = 'genex::GenexAPI::'


# how a parameter of the library is fed: a placeholder of the usage line, and the value taken when it is left out
def S(name, dflt=None):
    return ('string', name, dflt)


def I(name, dflt=None):
    return ('int', name, dflt)


def D(name, dflt=None):
    return ('double', name, dflt)


def B(name, dflt=None):
    return ('bool', name, dflt)


def C(name, dflt=None):
    return ('char', name, dflt)


ANYV = ('any', None, None)
K = lambda v: ('const', None, v)
TABLE = {
    'load': {'loadDataset': [S('name'), S('filePath'), S('separators', ' '), I('maxNumRow', 0), I('startCol', 0), B('hasNameCol', 0)]},
    'save': {'saveDataset': [S('name'), S('filePath'), C('separator', ' ')]},
    'unload': {'unloadDataset': [S('name')]},
    'distance': {'distanceBetween': [S('dataset1'), I('index1'), I('start1'), I('end1'), S('dataset2'), I('index2'), I('start2'), I('end2'),
                                     S('distance', 'euclidean_dtw')]},
    'group': {'groupDataset': [S('name'), D('threshold'), S('distance', 'euclidean'), ANYV, K(0)]},
    'saveGroups': {'saveGroups': [S('name'), S('path')], 'saveGroupsOld': [S('name'), S('path'), B('groupSizeOnly', 0)]},
    'loadGroups': {'loadGroups': [S('name'), S('path')]},
    'normalize': {'normalizeDataset': [S('name')]},
    'sim': {'getBestMatch': [S('target_name'), S('query_name'), I('query_index'), I('start', -1), I('end', -1)]},
    'ksim': {'getKBestMatches': [I('k'), I('ke', 'k'), S('target_name'), S('query_name'), I('query_index'), I('start', -1), I('end', -1)]},
    'ksimBF': {'getKBestMatchesBruteForce': [I('k'), S('target_name'), S('query_name'), I('query_index'), I('start', -1), I('end', -1), K('euclidean')]},
    'print': {'getTimeSeries': [S('name'), I('index'), I('start'), I('end')]},
    'list': {'getAllDatasetInfo': [], 'getAllDistanceInfo': []},
    'timer': {},
}
OPS = {o for t in TABLE.values() for o in t}
# words that choose what a command does: command -> word -> operation
WORDS = {'list': {'dataset': 'getAllDatasetInfo', 'distance': 'getAllDistanceInfo'}}


# ------------------------------------------------------------------ usage lines
def usage(text):
    """(command word, [(placeholders by position) for each allowed number of arguments])"""
    m = re.search(r'Usage:([^\n]*)', text)
    if not m:
        return None
    toks = re.findall(r'<[^<>]*>|\[|\]|[^\s\[\]<>]+', m.group(1))
    if not toks:
        return None
    pos = [1]

    def seq():
        alts = [()]
        while pos[0] < len(toks) and toks[pos[0]] != ']':
            t = toks[pos[0]]
            pos[0] += 1
            if t == '[':
                inner = seq()
                if pos[0] >= len(toks):
                    raise AnalysisBroken('a usage line has an open bracket')
                pos[0] += 1
                alts = [a + b for a in alts for b in [()] + inner]
            else:
                alts = [a + (t.strip('<>'),) for a in alts]
        return alts
    alts = seq()
    by = {}
    for a in alts:
        if len(a) in by and by[len(a)] != a:
            raise AnalysisBroken('a usage line allows two readings of the same number of arguments')
        by[len(a)] = a
    return toks[0], by


# ------------------------------------------------------------------ the program for a given number of words
class Case:
    """the function with the number of words fixed"""

    def __init__(self, s, size, n):
        self.s, self.f, self.n = s, s.fn, n
        self.m = {size: const(n)}
        self.dead = set()
        fn = s.fn
        while True:
            self.live = self.reach()
            m = {size: const(n)}
            for _ in range(6):
                for a, inc in s.minc.items():
                    if a in m or a.args[0] != fn.name or 'entry' in inc or a.args[1] not in self.live:
                        continue
                    vs = {rewrite(v, m) for b, v in inc.items() if b in self.live and (b, a.args[1]) not in self.dead}
                    if len(vs) == 1 and a not in subterms(next(iter(vs))):
                        m[a] = vs.pop()
            self.m = m
            dead = set(self.dead)
            for b in self.live:
                t = fn.blocks[b].term
                if t.op == 'br' and len(t.get('succ')) == 2 and t.get('succ')[0] != t.get('succ')[1]:
                    v = self.truth(s.asbool(s.val(t.ops[0])))
                    if v is not None:
                        dead.add((b, t.get('succ')[1 if v else 0]))
                elif t.op == 'switch':
                    v = self.val(s.val(t.ops[0]))
                    if v.op == 'int':
                        go = dict((int(str(k).split(':')[-1]), d) for k, d in t.get('cases') or []).get(v.args[0], t.get('default'))
                        for x in fn.blocks[b].succs:
                            if x != go:
                                dead.add((b, x))
            if dead == self.dead:
                break
            self.dead = dead

    def reach(self):
        seen, work = set(), [self.f.rpo[0]]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            work += [x for x in self.f.blocks[b].succs if (b, x) not in self.dead]
        return seen

    def val(self, t):
        for _ in range(8):
            u = rewrite(t, self.m)
            if u is t:
                break
            t = u
        # choices that are decided
        sub = {x: x.args[1 if self.truth(x.args[0]) else 2] for x in subterms(t) if x.op == 'sel' and self.truth(x.args[0]) is not None}
        return rewrite(t, sub) if sub else t

    def truth(self, t):
        t = rewrite(t, self.m)
        if t is TRUE or t is FALSE:
            return t is TRUE
        if t.op == 'int':
            return t.args[0] != 0
        if t.op == 'not':
            v = self.truth(t.args[0])
            return None if v is None else not v
        if t.op == 'and':
            v = [self.truth(x) for x in t.args]
            return False if False in v else True if v == [True, True] else None
        if t.op in ('ult', 'ule') and all(x.op == 'int' for x in t.args):
            a, b = (x.args[0] % 2 ** 64 for x in t.args)
            return a < b if t.op == 'ult' else a <= b
        if t.op == 'eq0' and t.args[0].isbool:
            v = self.truth(t.args[0])
            return None if v is None else not v
        return None

    def open(self, i):
        return i.blk in self.live

    def ends(self):
        """[(return, its value: True, False or None)] on ordinary ways, merged ways apart"""
        out = []
        for r in rets(self.f):
            if not self.open(r):
                continue
            t = self.s.val(r.ops[0])
            out.append((r, self.truth(self.s.asbool(t))))
        return out

    def avoids(self, target, stops, start=None):
        """the return can be reached from the entry without passing one of the calls, over ordinary edges that are open"""
        fn = self.f
        stop = {i.blk for i in stops}
        seen, work = set(), [fn.rpo[0]]
        while work:
            b = work.pop()
            if b in seen or exceptional(fn, b):
                continue
            seen.add(b)
            if b in stop:
                continue
            if b == target.blk:
                return True
            t = fn.blocks[b].term
            for x in fn.blocks[b].succs:
                if (b, x) in self.dead or t.op == 'invoke' and x == t.get('succ')[1] != t.get('succ')[0]:
                    continue
                work.append(x)
        return False


# ------------------------------------------------------------------ where commands are registered
def literal(p, t):
    if t.op in ('str', 'str0') and t.args and isinstance(t.args[0], T):
        t = t.args[0]
    if t.op == 'global':
        g = p.globals.get(t.args[0]) or {}
        v = g.get('init')
        if isinstance(v, dict):
            return v.get('str')
        return '' if v == 'zero' and g.get('ty') == '[1 x i8]' else None
    return None


def registered(ctx, p, f):
    """{word: class} and {object: class}"""
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    cls, words, strings = {}, {}, {}
    for i in f.instrs():
        if not i.is_call or not i.short:
            continue
        a = s.info[i.id].get('args') or []
        c, _, m = i.short.rpartition('::')
        if m == c and a and a[0].op == 'global' and any(n.startswith(c + '::doCommand(') for n in ctx.demangled):
            cls[a[0]] = c
        elif m == 'basic_string' and len(a) > 1 and literal(p, a[1]) is not None:
            strings[a[0]] = literal(p, a[1])
    for i in f.instrs():
        if i.op != 'store' or s.info[i.id]['val'] not in cls:
            continue
        q = s.info[i.id]['ptr']
        r, off = ptr_parts(q)
        if r.op == 'node':
            w = literal(p, r.args[1])
        else:
            w = strings.get(ptr_add(q, poly(const(-32))))
        ctx.require(w is not None, 'the word of a command was not found')
        ctx.expect(w not in words, 'word:%s' % w, i.where, 'two commands are entered under the word %s' % w)
        words[w] = cls[s.info[i.id]['val']]
    return words


def run(ctx):
    p = ctx.prog(['index'] + plan([r'^Cmd\w+::', r'^Command::', r'^processLine\(', r'^_GLOBAL__sub_I_GenexCLI'],
                                  [r'^genex::', r'^Cmd', r'^Command::get', r'^std::(__cxx11::)?sto\w+\(', r'^show\w+\(']))
    ctx.demangled = {f.dem for f in p.funcs.values()}
    init = [f for f in p.funcs.values() if f.short.startswith('_GLOBAL__sub_I_GenexCLI')]
    ctx.require(len(init) == 1, 'the initialisation of the command-line tool was not found')
    words = registered(ctx, p, init[0])
    ctx.require(len(words) >= 10, 'the table of commands was not found')
    for w in sorted(TABLE):
        ctx.expect(w in words, 'offered:%s' % w, init[0].where, 'the command %s is no longer offered' % w)
    g = [f for f in p.funcs.values() if f.short == 'Command::getHelp']
    ctx.require(len(g) == 1, 'the function giving the help text was not found')
    gs = ctx.sym(g[0], p)
    help_ = gs.val(rets(g[0])[0].ops[0])
    off = ptr_parts(help_)[1]
    for w, c in sorted(words.items()):
        ctor = [f for f in p.funcs.values() if f.short == '%s::%s' % (c, c)]
        do = [f for f in p.funcs.values() if f.short == c + '::doCommand']
        ctx.require(len(ctor) == 1 and len(do) == 1, 'the code behind the command %s was not found' % w)
        cs = ctx.sym(ctor[0], p, nogate=True, stable=stable_args)
        t = literal(p, cs.peek(api.state_before(cs, rets(ctor[0])[0]), ptr_add(cs.argT[0], off), 'obj'))
        u = usage(t) if t is not None else None
        ctx.require(u is not None, 'the usage line of the command %s was not found' % w)
        ctx.expect(u[0] == w, 'usage:%s' % w, ctor[0].where, 'the usage line of the command %s is that of %s' % (w, u[0]))
        if w not in TABLE:
            ctx.count('commands without a row in the table')
        ctx.count('commands')
        Cmd(ctx, p, w, do[0], u[1], t).decide()
    reader(ctx, p)


class Cmd:
    def __init__(self, ctx, p, word, f, by, text):
        self.ctx, self.p, self.w, self.f, self.by, self.text = ctx, p, word, f, by, text
        self.s = ctx.sym(f, p, nogate=True, stable=stable_args)
        self.args = self.s.argT[1]
        self.size = mk('size', mk('ld', self.args, 'obj', ()))

    def key(self, what):
        return '%s:%s' % (self.w, what)

    def decide(self):
        ctx, f, s, w = self.ctx, self.f, self.s, self.w
        ks = [x.args[0] for b in f.rpo for t in [f.blocks[b].term] if t.op == 'br' and t.ops
              for x in subterms(s.val(t.ops[0])) if x.op == 'int']
        ks += [abs(x.args[0]) for b in f.rpo for t in [f.blocks[b].term] if t.op == 'br' and t.ops for y in subterms(s.val(t.ops[0]))
               if y.op == 'poly' for x in [const(y.args[0])]]
        top = max([k for k in ks if 0 <= k < 64] + [max(self.by)]) + 2
        self.reads = self.subscripts()
        table = TABLE.get(w)
        for n in range(top + 1):
            ctx.count('numbers of words')
            c = Case(s, self.size, n + 1)
            for i, k in self.reads:
                if c.open(i):
                    ctx.expect(k is not None and k <= n, self.key('reads:%d' % n), i.where,
                               'with %d arguments the command %s reads argument %s' % (n, w, 'at an unknown place' if k is None else k))
            ops = [i for i in f.instrs() if i.is_call and i.short and i.short.startswith(API) and i.short[len(API):] in OPS and c.open(i)]
            ends = c.ends()
            if n not in self.by:
                ctx.expect(not ops, self.key('refuses:%d' % n), ops[0].where if ops else f.where,
                           'the command %s goes on with %d arguments, which its usage line does not allow' % (w, n))
                ctx.expect(all(v is False for _, v in ends) and not self.stores(c), self.key('refuses:%d' % n), f.where,
                           'the command %s does not report %d arguments as wrong' % (w, n))
                continue
            ctx.expect(any(v is not False for _, v in ends), self.key('accepts:%d' % n), f.where,
                       'the command %s refuses %d arguments, which its usage line allows' % (w, n))
            if table is None:
                continue
            mine = [i for i in ops if i.short[len(API):] in table]
            for i in ops:
                ctx.expect(i in mine, self.key('operation:%d' % n), i.where, 'the command %s calls %s' % (w, i.short))
            if table:
                ctx.expect(bool(mine), self.key('operation:%d' % n), f.where, 'the command %s does not call its operation with %d arguments' % (w, n))
                for r, v in ends:
                    if v is not True and len(table) > 1 and w in WORDS:
                        continue
                    ctx.expect(not c.avoids(r, mine) or self.falls(c, r, mine), self.key('operation:%d' % n), r.where,
                               'the command %s with %d arguments can succeed without calling its operation' % (w, n))
            for i in mine:
                ctx.expect(i.blk not in f.loop_of or f.loop_of[i.blk] is None, self.key('once:%d' % n), i.where, 'the operation is called in a loop')
                for j in mine:
                    ctx.expect(j is i or not self.after(c, i, j), self.key('once:%d' % n), j.where, 'the command %s calls two operations' % w)
                self.roles(c, n, i, table[i.short[len(API):]])
        for word, op in WORDS.get(w, {}).items():
            for i in f.instrs():
                if i.is_call and i.short == API + op:
                    fs = s.facts(i.blk)
                    ctx.expect(any(self.says(x, word) for x in fs),
                               self.key('word:%s' % word), i.where, 'the operation of the word %s is not called for that word' % word)
        if w == 'timer':
            self.timer()
        if w == 'saveGroups':
            self.flag()

    def stores(self, c):
        """global state written"""
        return [i for i in self.f.instrs() if i.op == 'store' and c.open(i) and ptr_parts(self.s.info[i.id]['ptr'])[0].op == 'global']

    def falls(self, c, r, mine):
        """every way to the return around the operation gives false"""
        s, f = self.s, self.f

        def false(o, depth=0):
            if c.truth(s.asbool(s.val(o))) is False:
                return True
            phi = f.by_id.get(int(o[1:])) if o[:1] == '%' and o[1:].isdigit() else None
            if phi is None or phi.op != 'phi' or depth > 4:
                return False
            for x, b in phi.get('in'):
                if b not in c.live or (b, phi.blk) in c.dead or any(i.blk == b for i in mine) or not c.avoids(f.blocks[b].term, mine):
                    continue
                if not false(x, depth + 1):
                    return False
            return True
        return false(r.ops[0])

    def after(self, c, i, j):
        seen, work = set(), [x for x in self.f.blocks[i.blk].succs if (i.blk, x) not in c.dead]
        if i.op == 'invoke':
            work = [i.get('succ')[0]]
        elif i.blk == j.blk and j.pos > i.pos:
            return True
        while work:
            b = work.pop()
            if b in seen or exceptional(self.f, b):
                continue
            seen.add(b)
            work += [x for x in self.f.blocks[b].succs if (b, x) not in c.dead]
        return j.blk in seen

    # ---- words of the line
    def word(self, t):
        """position of the word whose text t is"""
        if t.op == 'ld' and t.args[0].op == 'elem' and t.args[0].args[0] is self.args and t.args[0].args[1].op == 'int':
            return t.args[0].args[1].args[0]
        return None

    def says(self, x, word):
        """the condition: the first argument is that word"""
        return x.op == 'streq' and any(self.word(a) == 1 and literal(self.p, b) == word for a, b in (x.args[:2], x.args[1::-1]))

    def subscripts(self):
        """[(read, position or None)]"""
        out = []
        for i in self.f.instrs():
            if not i.is_call or not i.short:
                continue
            cl = self.s.info[i.id].get('call')
            a = self.s.info[i.id].get('args') or []
            if not a or a[0] is not self.args or not i.short.startswith('std::vector'):
                continue
            m = i.short.rsplit('::', 1)[1]
            if m == 'operator[]':
                k = a[1]
                self.ctx.count('words read')
                if k.op == 'int':
                    out.append((i, k.args[0]))
                else:
                    out.append((i, None))
        self.ctx.count('commands reading no word', 0 if out else 1)
        # positions that are not fixed must be below the number of words
        keep = []
        for i, k in out:
            if k is None:
                if Prover(self.s).in_range(self.s.info[i.id]['args'][1], self.size, self.s.facts(i.blk)):
                    continue
            keep.append((i, k))
        return keep

    # ---- roles
    def roles(self, c, n, i, want):
        ctx, s = self.ctx, self.s
        cl = s.info[i.id]['call']
        a = cl.params
        name = i.short[len(API):]
        place = {x: k + 1 for k, x in enumerate(self.by[n])}
        every = {x for ps in self.by.values() for x in ps}
        ctx.require(len(a) == len(want), 'the parameters of %s are not those of the table' % name)
        for k, (t, (ty, ph, dflt)) in enumerate(zip(a, want)):
            if ty == 'any':
                continue
            if ph is not None:
                ctx.require(ph in every, 'the usage line of %s has no argument %s' % (self.w, ph))
            got, text = self.read(c, i, t, ty)
            if ph is not None and ph in place:
                ok, exp = got == ('word', place[ph], ty), 'argument %s' % ph
                if not ok and ty == 'bool' and got and got[0] == 'value':
                    # the value the branch taken gives it
                    ok = self.chosen(c, i, place[ph]) is bool(got[1])
            elif dflt == 'k' and ty == 'int':
                ok, exp = got == ('word', place['k'], ty), 'argument k'
            else:
                dflt = self.documented(ph, dflt)
                ok, exp = got == ('value', dflt), 'the default %r' % (dflt,)
            ctx.count('arguments routed')
            ctx.expect(ok, self.key('role:%s:%d:%d' % (name, n, k + 1)), i.where,
                       'with %d arguments of %s, parameter %d of %s is %s and not %s' % (n, self.w, k + 1, name, text, exp))

    def documented(self, ph, dflt):
        """the default the help text gives for an argument, else that of the table"""
        m = re.search(r'^ +%s +- (.*(?:\n(?! +\w+ +- ).*)*)' % re.escape(ph), self.text, re.M) if ph else None
        d = re.search(r'[Dd]efault(?:s)?(?: to| is) (\S+?)\.?\s', m.group(1) + ' ') if m else None
        return d.group(1) if d and isinstance(dflt, str) else dflt

    def read(self, c, i, t, ty):
        """what a parameter is: ('word', position, conversion) or ('value', constant)"""
        s, f = self.s, self.f
        if ty in ('string', 'const') and t.op not in ('int', 'fconst') and not t.isbool:
            return self.string(c, i, t)
        if ty == 'char':
            v = c.val(t)
            if v.op == 'int':
                return ('value', chr(v.args[0])), repr(chr(v.args[0]))
            if v.op == 'ld':
                q = v.args[0]
                j = f.by_id.get(q.args[1]) if q.op == 'ret' and q.args[0] == f.name else None
                base = None
                if j is not None and j.is_call and j.short in ('std::basic_string::operator[]', 'std::basic_string::at', 'std::basic_string::front'):
                    a = s.info[j.id]['args']
                    if len(a) == 1 or c.val(a[1]) is const(0):
                        base = (j, a[0])
                elif q.op == 'call' and str(q.args[0]).split('::')[-1] in ('operator[]', 'at', 'front') and (len(q.args[2]) == 1 or q.args[2][1] is const(0)):
                    k = self.word(c.val(q.args[2][0]))
                    if k is not None:
                        return ('word', k, 'char'), 'the first character of word %d' % k
                    v = literal(self.p, c.val(q.args[2][0]))
                    if v:
                        return ('value', v[0]), repr(v[0])
                if base is not None:
                    r, text = self.string(c, *base)
                    if r and r[0] == 'word':
                        return ('word', r[1], 'char'), 'the first character of ' + text
                    if r and r[0] == 'value' and isinstance(r[1], str) and r[1]:
                        return ('value', r[1][0]), text
            return None, 'not the first character of a word'
        v = c.val(t)
        if ty == 'bool':
            # not zero
            if v is TRUE or v is FALSE:
                return ('value', int(v is TRUE)), str(v)
            if v.op == 'not' and v.args[0].op == 'eq0':
                v = v.args[0].args[0]
            elif v.op == 'ext' or v.op == 'trunc':
                v = v.args[0]
            if v.op == 'int':
                return ('value', int(v.args[0] != 0)), str(v)
            r, text = self.number(c, v)
            if r == 'int':
                # a flag known from the branch taken
                return ('word', text, 'bool'), 'word %d' % text
            return None, 'another value'
        if v.op == 'int':
            return ('value', v.args[0]), str(v.args[0])
        if v.op == 'fconst':
            return ('value', v.args[0]), str(v.args[0])
        r, k = self.number(c, v)
        if r is not None:
            return ('word', k, r), 'word %d read as %s' % (k, r)
        return None, 'another value'

    def number(self, c, v):
        """(conversion, position of the word)"""
        if v.op == 'ret' and v.args[0] == self.f.name:
            j = self.f.by_id[v.args[1]]
            conv = {'std::stoi': 'int', 'std::stod': 'double'}.get((j.short or '').replace('__cxx11::', ''))
            a = self.s.info[j.id]['args']
            if conv and (conv == 'double' or a[2] is const(10)):
                r, _ = self.string(c, j, a[0])
                if r and r[0] == 'word' and r[2] == 'string':
                    return conv, r[1]
        return None, None

    def string(self, c, i, p, depth=0):
        """the text of the object at p before i"""
        s = self.s
        q = c.val(p)
        t = c.val(api.content_before(s, i, q))
        for _ in range(6):
            if t.op == 'upd' and t.args[0] == self.f.name:
                j = self.f.by_id[t.args[1]]
                a = s.info[j.id]['args']
                # blanks written as \s are put in
                if j.short and j.short.split('<')[0].endswith('::replace_all') and literal(self.p, a[1]) == '\\s' and literal(self.p, a[2]) == ' ':
                    t = c.val(api.content_before(s, j, c.val(a[0])))
                    continue
            break
        k = self.word(t)
        if k is not None:
            return ('word', k, 'string'), 'word %d' % k
        v = literal(self.p, t)
        if v is not None:
            return ('value', v), repr(v)
        return None, 'another text'

    # ---- the two commands that set something themselves
    def timer(self):
        ctx, f, s = self.ctx, self.f, self.s
        sw = [i for i in f.instrs() if i.op == 'store' and ptr_parts(s.info[i.id]['ptr'])[0].op == 'global']
        ctx.require(len(sw) >= 1, 'the timer is never switched')
        got = set()
        for i in sw:
            v = s.info[i.id]['val']
            for word, on in (('on', 1), ('off', 0)):
                if any(self.says(x, word) for x in s.facts(i.blk)):
                    got.add(word)
                    ctx.expect(v in (const(on), TRUE if on else FALSE), self.key('switch:%s' % word), i.where, 'the timer is not switched %s by that word' % word)
                    break
            else:
                # a value that follows the word
                if self.says(v, 'on'):
                    got |= {'on', 'off'}
                else:
                    ctx.bad(self.key('switch'), i.where, 'the timer is switched without a word for it')
        for word in ('on', 'off'):
            ctx.expect(word in got, self.key('switch:%s' % word), f.where, 'the timer is not switched by the word %s' % word)

    def chosen(self, c, i, k):
        """whether word k, read as a number, is known to be not zero (True) or zero (False) before i"""
        for x in self.s.facts(i.blk):
            y = c.val(x)
            neg = y.op == 'not'
            y = y.args[0] if neg else y
            if y.op == 'eq0' and self.number(c, y.args[0]) == ('int', k):
                return neg
        return None

    def flag(self):
        """the old format is chosen by the third argument"""
        ctx, f, s = self.ctx, self.f, self.s
        c = Case(s, self.size, 4)
        for op, want in (('saveGroupsOld', True), ('saveGroups', False)):
            for i in f.instrs():
                if i.is_call and i.short == API + op and c.open(i):
                    ctx.expect(self.chosen(c, i, 3) is want, self.key('flag:%s' % op), i.where, 'the kind of file is not chosen by the third argument')
        c = Case(s, self.size, 3)
        for i in f.instrs():
            if i.is_call and i.short == API + 'saveGroupsOld':
                ctx.expect(not c.open(i) or any(c.truth(x) is False for x in s.facts(i.blk)), self.key('flag:default'), i.where,
                           'without the third argument the old kind of file is written')


# ------------------------------------------------------------------ the line reader
def reader(ctx, p):
    fs = [f for f in p.funcs.values() if f.short == 'processLine']
    ctx.require(len(fs) == 1, 'the function executing a line was not found')
    f = fs[0]
    s = ctx.sym(f, p, nogate=True, stable=stable_args)
    calls = [i for i in f.instrs() if i.is_call and not i.short and i.get('nargs', 2) is not None and len(s.info[i.id].get('args') or []) == 2]
    ctx.require(len(calls) >= 1, 'no command is called')
    vec = {s.info[i.id]['args'][1] for i in calls}
    ctx.require(len(vec) == 1, 'the words of a line are not one list')
    args = vec.pop()
    for i in calls:
        o = s.info[i.id]['args'][0]
        r = ptr_parts(o.args[0])[0] if o.op == 'ld' else None
        first = False
        if r is not None and r.op in ('node', 'find'):
            k = r.args[1] if r.op == 'node' else r.args[2]
            first = k.op == 'ld' and k.args[0].op == 'elem' and k.args[0].args[0] is args and k.args[0].args[1] is const(0)
        ctx.expect(first, 'line:command', i.where, 'the command called is not the one named by the first word')
    n = 0
    sz = sizes(ctx, s, f, args)
    for i in f.instrs():
        if not i.is_call:
            continue
        a = s.info[i.id].get('args') or []
        if i in calls or (i.short and i.short.startswith('std::vector') and i.short.endswith('operator[]') and a and a[0] is args):
            n += 1
            k = const(0) if i in calls else a[1]
            ctx.expect(covers(s.facts(i.blk), sz, k), 'line:words', i.where, 'a word of the line is used that may not be there')
    ctx.count('uses of words by the line reader', n)


def sizes(ctx, s, f, args):
    """values of the number of words; the list is not changed once made, commands get it to read only"""
    out = set()
    for i in f.instrs():
        if not i.is_call or args not in (s.info[i.id].get('args') or []):
            continue
        cl = s.info[i.id].get('call')
        if i.short and i.short.startswith('std::vector') and s.info[i.id]['args'][0] is args:
            m = i.short.rsplit('::', 1)[1]
            if m in ('size', 'empty'):
                out |= {x for x in subterms(s.vals[i.id]) if x.op == 'size'}
            elif m not in ('operator[]', 'at', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'vector', '~vector'):
                ctx.bad('line:list', i.where, 'the words of the line are changed')
    return out


def covers(facts, sz, k):
    """the facts put the number of words above the constant k"""
    if k.op != 'int':
        return False
    k = k.args[0]
    # every number of words up to k contradicts a fact
    for n in range(k + 1):
        bad = False
        for x in facts:
            y = rewrite(x, {z: const(n) for z in sz})
            if y is FALSE or y.op in ('ult', 'ule') and decided(y) is False or y.op == 'not' and y.args[0].op in ('ult', 'ule') and decided(y.args[0]) is True:
                bad = True
        if not bad:
            return False
    return True


def decided(t):
    if all(x.op == 'int' for x in t.args):
        a, b = (x.args[0] % 2 ** 64 for x in t.args)
        return a < b if t.op == 'ult' else a <= b
    return None
