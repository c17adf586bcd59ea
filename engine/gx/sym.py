"""Symbolic value numbering of one flattened function.

Every SSA value gets a term (terms.py).  Memory is a set of cells keyed by
(pointer term, type); standard-library objects have one cell of kind 'obj'
holding a term for their whole content.  Nothing is executed: the terms are
computed by a forward dataflow pass over the control-flow graph, joins produce
merge terms ('phi' for registers, 'mphi' for memory) whose incoming values are
recorded so that rules can reason about loops by induction.
"""
from . import names
from .terms import (T, mk, const, poly, mkpoly, padd, pmul, add, mul, le0, eq0, neg, fcmp,
                    ptr_add, ptr_parts, NULL, UNDEF, TRUE, FALSE, subterms, contains)

SIZES = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8, 'float': 4, 'ptr': 8, 'x86_fp80': 16}


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    t = mk('and', a, b)
    t.isbool = True
    return t


def or_(a, b):
    return neg_(and_(neg_(a), neg_(b)))


def neg_(a):
    if a.op == 'not':
        return a.args[0]
    r = neg(a)
    r.isbool = True
    return r


def sel(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'not' :
        c, a, b = c.args[0], b, a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg_(c)
    if b is FALSE:
        return and_(c, a)
    if a is FALSE:
        return and_(neg_(c), b)
    if a is TRUE:
        return or_(c, b)
    if b is TRUE:
        return or_(neg_(c), a)
    # minimum / maximum written as a conditional
    if c.op == 'le0':
        d = poly(c.args[0])
        ab = padd(poly(a), poly(b), -1)
        if a.op not in ('phi_undef',):
            if ab == d or padd(ab, {(): 1}) == d:
                return minmax('min', a, b)
            ba = {m: -k for m, k in ab.items()}
            if ba == d or padd(ba, {(): 1}) == d:
                return minmax('max', a, b)
    if c.op == 'fcmp' and c.args[0] in ('olt', 'ole', 'ult', 'ule'):
        if (c.args[1], c.args[2]) == (a, b):
            return minmax('fmin', a, b)
        if (c.args[1], c.args[2]) == (b, a):
            return minmax('fmax', a, b)
    r = mk('sel', c, a, b)
    return r


def minmax(k, a, b):
    if a is b:
        return a
    if b.uid < a.uid:
        a, b = b, a
    return mk(k, a, b)


SCALAR = {'int': 'i32', 'unsigned int': 'i32', 'long': 'i64', 'unsigned long': 'i64', 'double': 'double',
          'float': 'float', 'bool': 'i8', 'char': 'i8', 'short': 'i16', 'unsigned char': 'i8'}


def ref_kind(p):
    """kind of cell a reference/pointer parameter type refers to"""
    q = p
    for suf in ('&&', '&', '*'):
        if q.endswith(suf):
            q = q[:-len(suf)].strip()
            break
    if q.endswith(' const'):
        q = q[:-6].strip()
    if q in SCALAR:
        return SCALAR[q]
    if q.endswith('*') or q.endswith(')'):
        return 'ptr'
    n = names.parse(q + '()')[0]
    if n.split('::')[-1] in ('_Rb_tree_iterator', '_Rb_tree_const_iterator', '__normal_iterator') or \
            q.startswith('std::_Rb_tree_iterator') or q.startswith('std::_Rb_tree_const_iterator') or \
            q.startswith('__gnu_cxx::__normal_iterator'):
        return 'ptr'
    return 'obj'


def agg_fields(ty):
    """(offset, type) of the members of a literal struct of scalars"""
    res, off = [], 0
    for e in ty.strip('{} ').split(','):
        e = e.strip()
        n = SIZES.get(e, 8)
        off = (off + n - 1) // n * n
        res.append((off, e))
        off += n
    return res


_CHAIN = {}


class State:
    __slots__ = ('cells', 'base', 'clob')

    def __init__(self, cells=None, base=None, clob=None):
        self.cells = cells if cells is not None else {}
        self.base = base
        self.clob = clob if clob is not None else {}

    def copy(self):
        return State(dict(self.cells), self.base, dict(self.clob))


class Sym:
    MAXIT = 30

    def __init__(self, fn, prog=None, opts=None):
        self.fn = fn
        self.prog = prog
        self.opts = opts or {}
        self.vals = {}
        self.instate = {}
        self.outstate = {}
        self.minc = {}      # mphi/phi term -> {pred: term}
        self.info = {}      # instr id -> dict
        self.universe = set()
        self.argT = []
        names_ = {v: k for k, v in fn.argnames.items()}
        for i, a in enumerate(fn.args):
            nm = 'sret' if a['sret'] else names_.get(i, 'a%d' % i)
            at = mk('arg', i, nm, a['ty'], fn.name)
            if a['ty'] == 'i1':
                at.isbool = True
            self.argT.append(at)
        self.argByName = {t.args[1]: t for t in self.argT}
        self.stable = self.opts.get('stable')
        # different arguments denote different objects (the caller judges the other case separately)
        self.distinct = self.opts.get('distinct')
        self.sized = {}     # objects whose extent is known at some operation
        self._sz = None
        self.hent = {}      # loop header atom -> entry value
        self._escapes()
        self._run()

    # ------------------------------------------------------------------ setup
    def _escapes(self):
        """allocas whose address is stored to memory"""
        fn = self.fn
        root = {}
        for i in fn.instrs():
            if i.op == 'alloca':
                root[i.id] = i.id
        changed = True
        while changed:
            changed = False
            for i in fn.instrs():
                if i.op in ('getelementptr', 'phi', 'select') and i.id not in root:
                    srcs = i.ops if i.op != 'phi' else [x[0] for x in i.get('in')]
                    for s in srcs:
                        if s.startswith('%') and s[1] != 'a' and int(s[1:]) in root:
                            root[i.id] = root[int(s[1:])]
                            changed = True
                            break
        esc = set()
        for i in fn.instrs():
            if i.op == 'store':
                s = i.ops[0]
                if s.startswith('%a') and fn.args[int(s[2:])]['sret']:
                    esc.add('sret')
                elif s.startswith('%') and s[1] != 'a' and int(s[1:]) in root:
                    esc.add(root[int(s[1:])])
        self.escaped = esc

    # -------------------------------------------------------------- operands
    def val(self, o):
        if o[0] == '%':
            if o[1] == 'a':
                return self.argT[int(o[2:])]
            t = self.vals.get(int(o[1:]))
            return t if t is not None else UNDEF
        if o.startswith('c:'):
            return const(int(o[2:]))
        if o.startswith('f:'):
            return mk('fconst', o[2:])
        if o == 'null':
            return NULL
        if o == 'undef':
            return UNDEF
        if o == 'zero':
            return const(0)
        if o[0] == '@':
            return mk('global', o[1:])
        if o[0] == '&':
            g, off = o[1:].rsplit('+', 1)
            b = mk('global', g[1:]) if g[0] == '@' else mk('opaque', g)
            return ptr_add(b, {(): int(off)})
        return mk('opaque', o)

    # ---------------------------------------------------------------- memory
    def field(self, p):
        return p.note

    def _chain(self, p):
        """objects the pointer p lies in, outermost last"""
        c = _CHAIN.get(p)
        if c is None:
            c = _CHAIN[p] = self._chain0(p)
        return c

    def _chain0(self, p):
        res = [p]
        while True:
            r, off = ptr_parts(p)
            if r is not p:
                res.append(r)
                p = r
                continue
            if p.op in ('elem', 'node', 'sdata'):
                p = p.args[0]
                res.append(p)
                continue
            return res

    def missing(self, st, p, ty):
        toks = [st.base]
        if self.stable and self.stable(self._chain(p)[-1]):
            toks = [None]
        f = p.note
        if f is not None:
            toks.append(st.clob.get(('f', f, ty)))
        else:
            toks.append(st.clob.get(('t', ty)))
        if self.distinct:
            own = ptr_parts(p)[0]
            for a in ([own] if own.op == 'arg' else self.argT):
                toks.append(st.clob.get(('a', a, f, ty)))
        ch = self._chain(p)
        for n, x in enumerate(ch):
            toks.append(st.clob.get(('o', x)))
            if x in self.sized:
                k = self._within(ch, n)
                for sz in sorted(self.sized[x]):
                    if k is None or k < sz:
                        toks.append(st.clob.get(('o', x, sz)))
        while toks and toks[-1] is None:
            toks.pop()
        blk = None
        t = mk('ld', p, ty, tuple(toks))
        d = set(t.defs)
        for k in toks:
            if k is not None:
                d.add(k[0])
        t.defs = frozenset(d)
        if f:
            t.note = f
        return t

    def _within(self, ch, n):
        """constant distance of the innermost object from ch[n], None when it is an element or not constant"""
        if n == 0:
            return 0
        if any(x.op in ('elem', 'node', 'sdata') for x in ch[:n]):
            return None
        k = 0
        for x in ch[:n]:
            if x.op == 'ptr':
                off = poly(x.args[1])
                if set(off) - {()}:
                    return None
                k += off.get((), 0)
        return k

    def peek(self, st, p, ty):
        k = (p, ty)
        v = st.cells.get(k)
        if v is None:
            v = self._derive(st, p, ty)
            if v is None:
                v = self.missing(st, p, ty)
        return v

    def _derive(self, st, p, ty):
        if ty == 'i64':
            lo, hi = st.cells.get((p, 'i32')), st.cells.get((ptr_add(p, {(): 4}), 'i32'))
            if lo is not None and hi is not None:
                return mk('pair32', lo, hi)
        return None

    def read(self, st, p, ty):
        v = self.peek(st, p, ty)
        self.universe.add((p, ty))
        st.cells[(p, ty)] = v
        return v

    def nonesc(self, r):
        if r.op == 'arg':
            # the object being returned is nobody else's yet
            return r.args[1] == 'sret' and 'sret' not in self.escaped
        return r.op == 'alloca' and r.args[0] not in self.escaped

    def may_alias(self, p, ty, q, ty2):
        if p is q:
            return True
        rp, op_ = ptr_parts(p)
        rq, oq = ptr_parts(q)
        if rp is rq:
            d = padd(op_, oq, -1)
            d = {m: c for m, c in d.items() if c}
            if not d:
                return True
            if set(d) == {()}:
                return abs(d[()]) < SIZES.get(ty, 8)
            if p.note and q.note and p.note != q.note:
                return False
            return True
        ids = ('alloca', 'new', 'global', 'zero')
        if rp.op in ids and rq.op in ids:
            return False
        if self.nonesc(rp) or self.nonesc(rq):
            return False
        if self.distinct and rp.op == rq.op == 'arg':
            return False
        if rp.op == 'new' or rq.op == 'new':
            # fresh object: distinct from anything that existed before it
            n, o = (rp, rq) if rp.op == 'new' else (rq, rp)
            if o.op in ('arg', 'global') or (o.op in ('elem', 'node') and o.args[0] is not n):
                return False
        if (p.note is None) != (q.note is None):
            return False
        if p.note and q.note:
            return p.note == q.note
        # elements of two different containers
        if rp.op in ('elem', 'node') and rq.op in ('elem', 'node'):
            if rp.op != rq.op:
                return False
            if rp.args[0] is not rq.args[0]:
                a, b = rp.args[0], rq.args[0]
                ra, rb = ptr_parts(a)[0], ptr_parts(b)[0]
                if (self.nonesc(ra) or self.nonesc(rb)) and ra is not rb:
                    return False
                if a.note and b.note and a.note != b.note:
                    return False
                if ra is rb and not (a.note is None or b.note is None) and a.note == b.note:
                    return True
                return True
            if rp.op == 'elem':
                d = padd(poly(rp.args[1]), poly(rq.args[1]), -1)
                if set(d) == {()}:
                    return False
            else:
                return True
        if (rp.op in ('elem', 'node')) != (rq.op in ('elem', 'node')):
            return False
        return True

    def write(self, st, p, ty, v, tok):
        for k in [k for k in st.cells if k[0] is not p and k[1] == ty and self.may_alias(p, ty, k[0], ty)]:
            del st.cells[k]
        # a differently typed view of the same bytes is stale
        for ty2 in ('i64', 'i32', 'ptr', 'double'):
            if ty2 != ty:
                st.cells.pop((p, ty2), None)
        if ty == 'i32':
            r, off = ptr_parts(p)
            st.cells.pop((ptr_add(p, {(): -4}), 'i64'), None)
        root = ptr_parts(p)[0]
        if not self.nonesc(root):
            if self.distinct and root.op == 'arg':
                st.clob[('a', root, p.note, ty)] = tok
            elif p.note is not None:
                st.clob[('f', p.note, ty)] = tok
            else:
                st.clob[('t', ty)] = tok
        else:
            st.clob[('o', root)] = tok
        st.cells[(p, ty)] = v
        self.universe.add((p, ty))
        if ty == 'i64' and v.op != 'int':
            p4 = ptr_add(p, {(): 4})
            if v.op == 'pair32':
                st.cells[(p, 'i32')], st.cells[(p4, 'i32')] = v.args
            else:
                st.cells[(p, 'i32')] = mk('lo32', v)
                st.cells[(p4, 'i32')] = mk('hi32', v)
        elif ty == 'i64':
            pass

    def drop_object(self, st, p, tok, keep_elems=False):
        """forget every cell inside object p (any type), its elements included"""
        sz = self._sz[1] if self._sz and self._sz[0] is p else None
        for k in list(st.cells):
            q = k[0]
            ch = self._chain(q)
            if p in ch:
                if sz is not None:
                    w = self._within(ch, ch.index(p))
                    if w is not None and w >= sz:
                        continue
                if keep_elems and q is not p and any(x.op in ('elem', 'node') for x in ch[:ch.index(p)]):
                    continue
                del st.cells[k]
        if not keep_elems:
            if sz is None:
                st.clob[('o', p)] = tok
            else:
                self.sized.setdefault(p, set()).add(sz)
                st.clob[('o', p, sz)] = tok

    def havoc_all(self, st, tok, args=()):
        keep = {}
        roots = set()
        for a in args:
            r = self._chain(a)[-1]
            roots.add(r)
        for k, v in st.cells.items():
            r = self._chain(k[0])[-1]
            if self.nonesc(r) and r not in roots:
                keep[k] = v
            elif self.stable and self.stable(r) and r not in roots:
                keep[k] = v
        st.cells = keep
        st.base = tok
        if not self.stable:
            st.clob = {}

    # ------------------------------------------------------------------ joins
    def join(self, b):
        fn = self.fn
        header = b in fn.loops
        preds = [p for p in fn.blocks[b].preds if p in self.done]
        if not preds:
            return State()
        sts = [self.outstate[p] for p in preds]
        if len(preds) == 1:
            res = self.outstate[preds[0]].copy()
        else:
            res = State()
            bases = {s.base for s in sts}
            res.base = sts[0].base if len(bases) == 1 else (b, 'e' if header else 'j')
            for k in set().union(*[s.clob.keys() for s in sts]):
                v = {s.clob.get(k) for s in sts}
                res.clob[k] = sts[0].clob.get(k) if len(v) == 1 else (b, 'e' if header else 'j')
            for k in sorted(set().union(*[s.cells.keys() for s in sts]), key=lambda k: (k[0].uid, k[1])):
                vals = {p: self.peek(s, k[0], k[1]) for p, s in zip(preds, sts)}
                res.cells[k] = self.merge(b, ('m',) + k, vals, k[1])
        if header:
            loopb = fn.loops[b]
            ent = res
            res = State()
            res.base = (b, 'h') if (b, 'base') in self.forced else ent.base
            for k in ent.clob:
                res.clob[k] = ent.clob[k]
            for k in self.forced_clob.get(b, ()):
                res.clob[k] = (b, 'h')
            keys = set(ent.cells) | {k for k in self.universe
                                     if all(fn.dominates(x, b) for x in k[0].defs if isinstance(x, int))}
            for k in sorted(keys, key=lambda k: (k[0].uid, k[1])):
                if k[0].defs & loopb:
                    continue
                ev = self.peek(ent, k[0], k[1])
                res.cells[k] = self.hmerge(b, ('m',) + k, ev, k[1])
            self.entstate[b] = ent
        return res

    def hmerge(self, b, key, ev, ty):
        """value at a loop header: the entry value unless the loop was seen to change it"""
        f = self.forced.get((b, key))
        if f is None:
            return ev
        atom = mk('phi', self.fn.name, b, key, blk=b)
        self.hent[atom] = ev
        if f == 'ix' and ev.op == 'vit':
            ixa = mk('phi', self.fn.name, b, ('ix',) + key, blk=b)
            return mk('vit', ev.args[0], ixa)
        if f == 'ix' and ty == 'ptr':
            ixa = mk('phi', self.fn.name, b, ('ix',) + key, blk=b)
            return ptr_add(ptr_parts(ev)[0], poly(ixa))
        if ty == 'i1':
            atom.isbool = True
        return atom

    def check_latches(self):
        """after a pass: which header values did the loop bodies change?"""
        fn = self.fn
        new = False
        for b in fn.loops:
            lat = [p for p in fn.latches(b) if p in self.done]
            hin = self.instate[b]
            ent = self.entstate[b]
            for p in lat:
                s = self.outstate[p]
                if s.base != hin.base and (b, 'base') not in self.forced:
                    self.forced[(b, 'base')] = True
                    new = True
                for k in set(s.clob) | set(hin.clob):
                    if s.clob.get(k) != hin.clob.get(k) and k not in self.forced_clob.setdefault(b, set()):
                        self.forced_clob[b].add(k)
                        new = True
                for k, hv in hin.cells.items():
                    lv = self.peek(s, k[0], k[1])
                    new |= self.force(b, ('m',) + k, self.peek(ent, k[0], k[1]), hv, lv, k[1])
            for i in fn.blocks[b].ins:
                if i.op != 'phi':
                    break
                ev = self.phient[i.id]
                for o, p in i.get('in'):
                    if p in lat:
                        new |= self.force(b, ('r', i.id), ev, self.vals[i.id], self.val(o), i.ty)
        return new

    def force(self, b, key, ev, hv, lv, ty):
        cur = self.forced.get((b, key))
        if cur == 'all' or hv is lv:
            return False
        if ev.op == 'vit' and lv.op == 'vit' and lv.args[0] is ev.args[0]:
            want = 'ix'
        elif ty == 'ptr' and ev.op not in ('null', 'undef', 'vit') and ptr_parts(lv)[0] is ptr_parts(ev)[0] \
                and ptr_parts(lv)[0].op not in ('null', 'undef'):
            want = 'ix'
        else:
            want = 'all'
        if cur == want:
            return False
        self.forced[(b, key)] = want
        return True

    def record_incoming(self):
        fn = self.fn
        for b in fn.loops:
            lat = [p for p in fn.latches(b) if p in self.done]
            fwd = [p for p in fn.blocks[b].preds if p in self.done and p not in lat]
            hin = self.instate[b]
            ent = self.entstate[b]
            items = []
            for k in hin.cells:
                if (b, ('m',) + k) in self.forced:
                    items.append((('m',) + k, self.peek(ent, k[0], k[1]),
                                  {p: self.peek(self.outstate[p], k[0], k[1]) for p in lat}, k[1]))
            for i in fn.blocks[b].ins:
                if i.op != 'phi':
                    break
                if (b, ('r', i.id)) in self.forced:
                    items.append((('r', i.id), self.phient[i.id],
                                  {p: self.val(o) for o, p in i.get('in') if p in lat}, i.ty))
            for key, ev, lvs, ty in items:
                f = self.forced[(b, key)]
                if f == 'ix':
                    a = mk('phi', fn.name, b, ('ix',) + key, blk=b)
                    if ev.op == 'vit':
                        g = lambda v: v.args[1]
                    else:
                        g = lambda v: mkpoly(ptr_parts(v)[1])
                    d = {p: g(v) for p, v in lvs.items()}
                    d['entry'] = g(ev)
                else:
                    a = mk('phi', fn.name, b, key, blk=b)
                    d = dict(lvs)
                    d['entry'] = ev
                self.minc[a] = d

    def merge(self, b, key, vals, ty):
        """term for the merge of vals (pred -> term) at a join (loop headers: forward predecessors only)"""
        fn = self.fn
        u = set(vals.values())
        if len(u) == 1:
            return next(iter(u))
        header = b in fn.loops
        vs = list(vals.values())
        # vector iterators over one container / pointers into one object: merge the index only
        if all(v.op == 'vit' for v in vs) and len({v.args[0] for v in vs}) == 1:
            return mk('vit', vs[0].args[0], self.merge(b, ('ix',) + key, {p: v.args[1] for p, v in vals.items()}, 'i64'))
        if not header and (not self.opts.get('nogate') or ty in ('i1', 'i8') or all(v.isbool for v in vs)):
            g = self.gated(b, vals)
            if g is not None:
                return g
        atom = mk('phi', fn.name, b, ('e',) + key if header else key, blk=b)
        self.minc[atom] = dict(vals)
        if ty == 'i1':
            atom.isbool = True
        return atom

    def gated(self, b, vals):
        """value of a merge as nested conditionals over the branches since the immediate dominator"""
        fn = self.fn
        d = fn.idom[b]
        if set(fn.blocks[b].preds) - set(vals):
            return None
        canreach = self._reach_to(b, d)
        budget = [14]
        memo = {}

        def go(n, pred):
            if n == b:
                return vals[pred]
            if n not in canreach:
                return 'none'
            if n in memo:
                return memo[n]
            if n in fn.loops or fn.blocks[n] is None:
                # a loop between dominator and join: conditions inside cannot gate
                return 'fail'
            budget[0] -= 1
            if budget[0] < 0:
                return 'fail'
            memo[n] = 'fail'
            r = branch(n)
            memo[n] = r
            return r

        def branch(n):
            t = fn.blocks[n].term
            if t.op == 'br' and len(t.get('succ')) == 2 and t.get('succ')[0] != t.get('succ')[1]:
                c = self.val(t.ops[0])
                x, y = go(t.get('succ')[0], n), go(t.get('succ')[1], n)
                if x == 'fail' or y == 'fail':
                    return 'fail'
                if x == 'none':
                    return y
                if y == 'none':
                    return x
                return sel(c, x, y)
            if t.op == 'br' or t.op == 'invoke':
                rs = [go(s, n) for s in fn.blocks[n].succs]
                rs = [r for r in rs if r != 'none']
                if not rs:
                    return 'none'
                if len(rs) == 1 or all(r is rs[0] for r in rs):
                    return rs[0]
            return 'fail'

        r = branch(d)
        if r in ('fail', 'none'):
            return None
        return r

    def _reach_to(self, b, d):
        key = (b, d)
        c = getattr(self, '_rt', None)
        if c is None:
            c = self._rt = {}
        if key in c:
            return c[key]
        seen = {b}
        st = [b]
        while st:
            x = st.pop()
            if x == d:
                continue
            for p in self.fn.blocks[x].preds:
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        c[key] = seen
        return seen

    # -------------------------------------------------------------- main loop
    def _run(self):
        self.converged = False
        self.forced = {}
        self.forced_clob = {}
        self.entstate = {}
        self.phient = {}
        self.final = False
        for it in range(self.MAXIT):
            n = len(self.universe)
            self._pass()
            if not self.check_latches() and len(self.universe) == n:
                self.converged = True
                break
        self.info = {}
        self.final = True
        self._pass()
        self.record_incoming()

    def _pass(self):
        fn = self.fn
        self.done = set()
        self.minc = {}
        for b in fn.rpo:
            if b == 0:
                st = State()
            else:
                st = self.join(b)
            self.instate[b] = st.copy()
            # phis first, in parallel
            blk = fn.blocks[b]
            newv = {}
            k = 0
            header = b in fn.loops
            for i in blk.ins:
                if i.op != 'phi':
                    break
                k += 1
                vals = {p: self.val(o) for o, p in i.get('in') if p in self.done}
                if i.ty == 'i1':
                    vals = {p: self.asbool(v) if v.op == 'int' else v for p, v in vals.items()}
                v = self.merge(b, ('r', i.id), vals, i.ty) if vals else UNDEF
                if header:
                    self.phient[i.id] = v
                    v = self.hmerge(b, ('r', i.id), v, i.ty)
                newv[i.id] = v
            for x, v in newv.items():
                self.vals[x] = v
            for i in blk.ins[k:]:
                v = self.step(i, st)
                if v is not None:
                    self.vals[i.id] = v
            self.outstate[b] = st
            self.done.add(b)

    # ------------------------------------------------------------------ steps
    def step(self, i, st):
        op = i.op
        m = getattr(self, 'op_' + op.replace('.', '_'), None)
        if m:
            return m(i, st)
        if op in ('br', 'switch', 'ret', 'resume', 'unreachable'):
            return None
        return mk('val', self.fn.name, i.id, blk=i.blk)

    def atom(self, i, tag='val'):
        return mk(tag, self.fn.name, i.id, blk=i.blk)

    def op_alloca(self, i, st):
        t = mk('alloca', i.id, i.get('aty'), self.fn.name)
        return t

    def op_load(self, i, st):
        p = self.val(i.ops[0])
        if i.ty.startswith('{'):
            v = mk('agg', tuple((n, self.read(st, ptr_add(p, {(): off} if off else {}), ty))
                                for n, (off, ty) in enumerate(agg_fields(i.ty))))
        else:
            v = self.read(st, p, i.ty)
        if self.final:
            self.info[i.id] = {'ptr': p, 'val': v}
        return v

    def op_store(self, i, st):
        v, p = self.val(i.ops[0]), self.val(i.ops[1])
        if self.final:
            self.info[i.id] = {'ptr': p, 'val': v, 'old': self.peek(st, p, i.get('sty'))}
        sty = i.get('sty')
        if sty.startswith('{'):
            d = dict(v.args[0]) if v.op == 'agg' else {}
            for n, (off, ty) in enumerate(agg_fields(sty)):
                self.write(st, ptr_add(p, {(): off} if off else {}), ty, d.get(n) or mk('ev', v, n), (i.blk, i.id))
        else:
            self.write(st, p, sty, v, (i.blk, i.id))
        return None

    def op_getelementptr(self, i, st):
        p = self.val(i.ops[0])
        off = {}
        fname = None
        for s in i.get('steps'):
            if s[0] == 'off':
                off = padd(off, {(): s[1]})
                fname = s[2]
            else:
                off = padd(off, poly(self.val(s[1])), s[2])
                if s[1] != 'c:0':
                    fname = None
        if p.op == 'vit':
            p = mk('elem', p.args[0], p.args[1])
        r = ptr_add(p, off)
        if fname and not fname.endswith('<base>') and r.op in ('ptr', 'arg', 'elem', 'node', 'ld', 'new', 'phi', 'alloca'):
            if r.note is None:
                r.note = fname
        return r

    def binop(self, i):
        return self.val(i.ops[0]), self.val(i.ops[1])

    def op_add(self, i, st):
        a, b = self.binop(i)
        return add(a, b)

    def op_sub(self, i, st):
        a, b = self.binop(i)
        return add(a, b, -1)

    def op_mul(self, i, st):
        a, b = self.binop(i)
        return mul(a, b)

    def op_shl(self, i, st):
        a, b = self.binop(i)
        if b.op == 'int':
            return mul(a, const(1 << b.args[0]))
        return mk('shl', a, b)

    def _generic2(self, i, st):
        a, b = self.binop(i)
        if i.op in ('or', 'and', 'xor') and i.ty == 'i1':
            if i.op == 'xor':
                if b is TRUE or b.op == 'int' and b.args[0] == 1:
                    return neg_(self.asbool(a))
                if a is TRUE or a.op == 'int' and a.args[0] == 1:
                    return neg_(self.asbool(b))
            elif i.op == 'and':
                return and_(self.asbool(a), self.asbool(b))
            else:
                return or_(self.asbool(a), self.asbool(b))
        if i.op == 'fadd' or i.op == 'fmul':
            if b.uid < a.uid:
                a, b = b, a
        t = mk(i.op, a, b)
        return t
    op_or = op_and = op_xor = op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = _generic2
    op_sdiv = op_udiv = op_srem = op_urem = op_lshr = op_ashr = _generic2

    def op_fneg(self, i, st):
        a = self.val(i.ops[0])
        if a.op == 'fconst':
            c = a.args[0]
            return mk('fconst', c[1:] if c.startswith('-') else '-' + c)
        return mk('fneg', a)

    def asbool(self, t):
        if t.isbool:
            return t
        if t.op == 'int':
            return TRUE if t.args[0] else FALSE
        if t.op in ('and', 'sel') and t.isbool:
            return t
        r = neg_(eq0(poly(t)))
        return r

    def _conv(self, i, st):
        a = self.val(i.ops[0])
        if i.op == 'trunc' and i.ty == 'i1':
            return self.asbool(a)
        if i.op == 'trunc' and i.ty == 'i32' and a.op == 'pair32':
            return a.args[0]
        if i.op == 'trunc' and i.ty == 'i32' and i.get('from') == 'i64' and a.op in ('ld',) and a.args[1] == 'i64':
            return mk('lo32', a) if False else a
        if i.op == 'zext' and i.get('from') == 'i1' and a.op == 'int':
            return a
        return a
    op_sext = op_zext = op_trunc = op_bitcast = op_ptrtoint = op_inttoptr = op_freeze = op_addrspacecast = _conv

    def _fconv(self, i, st):
        a = self.val(i.ops[0])
        return mk(i.op, a)
    op_sitofp = op_uitofp = op_fptosi = op_fptoui = _fconv

    def _fext(self, i, st):
        return mk(i.op, self.val(i.ops[0]))
    op_fpext = op_fptrunc = _fext

    def op_icmp(self, i, st):
        a, b = self.binop(i)
        return self.icmp(i.get('pred'), a, b, i.get('oty'))

    def icmp(self, pred, a, b, oty='i32'):
        if oty == 'ptr' and pred in ('eq', 'ne') or a.op in ('vit', 'ptr', 'null', 'find', 'mend', 'alloca', 'new') or \
                b.op in ('vit', 'ptr', 'null', 'find', 'mend', 'alloca', 'new'):
            return self.pcmp(pred, a, b)
        if a.isbool or b.isbool:
            x, y = (a, b) if a.isbool else (b, a)
            if y.op == 'int' or y.isbool:
                if pred in ('eq', 'ne'):
                    if y.op == 'int':
                        r = x if y.args[0] else neg_(x)
                        return r if pred == 'eq' else neg_(r)
        d = padd(poly(a), poly(b), -1)
        if pred == 'eq':
            return eq0(d)
        if pred == 'ne':
            return neg_(eq0(d))
        if pred == 'slt':
            return le0(padd(d, {(): 1}))
        if pred == 'sle':
            return le0(d)
        if pred == 'sgt':
            return le0(padd({(): 1}, d, -1))
        if pred == 'sge':
            return le0({m: -c for m, c in d.items()})
        # unsigned
        if pred in ('ult', 'ule', 'ugt', 'uge'):
            if pred == 'ugt':
                return self.ucmp(b, a, True)
            if pred == 'uge':
                return self.ucmp(b, a, False)
            return self.ucmp(a, b, pred == 'ult')
        return mk('icmp', pred, a, b)

    def nonneg(self, t):
        """obviously >= 0"""
        if t.op == 'int':
            return t.args[0] >= 0
        if t.op in ('size', 'count', 'strlen', 'zx'):
            return True
        if t.op == 'max':
            return any(self.nonneg(x) for x in t.args)
        if t.op == 'min':
            return all(self.nonneg(x) for x in t.args)
        if t.op == 'poly':
            return t.args[0] >= 0 and all(k >= 0 and all(self.nonneg(a) for a in m) for m, k in t.args[1])
        if t.op == 'phi' and t in self.minc:
            if t in getattr(self, '_nnstack', ()):
                return True
            self._nnstack = getattr(self, '_nnstack', ()) + (t,)
            try:
                return all(self.nonneg(v) for v in self.minc[t].values())
            finally:
                self._nnstack = self._nnstack[:-1]
        return False

    def ucmp(self, a, b, strict):
        d = padd(poly(a), poly(b), -1)
        if strict:
            d = padd(d, {(): 1})
        if a.op == 'int' and b.op == 'int' and a.args[0] >= 0 and b.args[0] >= 0:
            return le0(d)
        if self.nonneg(a) and self.nonneg(b):
            return le0(d)
        t = mk('ult' if strict else 'ule', a, b)
        t.isbool = True
        return t

    def pcmp(self, pred, a, b):
        eq = None
        if a.op == 'vit' and b.op == 'vit' and a.args[0] is b.args[0]:
            return self.icmp(pred if pred in ('eq', 'ne') else 's' + pred[1:], a.args[1], b.args[1], 'i64')
        ra, oa = ptr_parts(a)
        rb, ob = ptr_parts(b)
        if ra is rb:
            return self.icmp(pred if pred in ('eq', 'ne') else 's' + pred[1:], mkpoly(oa), mkpoly(ob), 'i64')
        if pred in ('eq', 'ne'):
            if a.op in ('find',) and b.op == 'mend' and a.args[1] is b.args[1]:
                eq = neg_(self.present(a.args[1], a.args[2]))
            elif b.op in ('find',) and a.op == 'mend' and b.args[1] is a.args[1]:
                eq = neg_(self.present(b.args[1], b.args[2]))
            else:
                if b is NULL and ra.op in ('alloca', 'new', 'global', 'elem', 'node') or \
                        a is NULL and rb.op in ('alloca', 'new', 'global', 'elem', 'node'):
                    eq = FALSE
                else:
                    x, y = (a, b) if a.uid <= b.uid else (b, a)
                    eq = mk('peq', x, y)
            return eq if pred == 'eq' else neg_(eq)
        return mk('icmp', pred, a, b)

    def present(self, content, key):
        t = mk('present', content, key)
        t.isbool = True
        return t

    def op_fcmp(self, i, st):
        a, b = self.binop(i)
        p = i.get('pred')
        if p == 'true':
            return TRUE
        if p == 'false':
            return FALSE
        return fcmp(p, a, b)

    def op_select(self, i, st):
        c, a, b = (self.val(x) for x in i.ops)
        return sel(self.asbool(c), a, b)

    def op_extractvalue(self, i, st):
        a = self.val(i.ops[0])
        if a.op == 'umulov':
            return mul(a.args[0], a.args[1]) if i.get('index') == 0 else FALSE
        if a.op == 'agg':
            try:
                return dict(a.args[0])[i.get('index')]
            except KeyError:
                pass
        return mk('ev', a, i.get('index'))

    def op_insertvalue(self, i, st):
        a, v = self.val(i.ops[0]), self.val(i.ops[1])
        d = dict(a.args[0]) if a.op == 'agg' else {}
        d[i.get('index')] = v
        return mk('agg', tuple(sorted(d.items())))

    def op_landingpad(self, i, st):
        return self.atom(i, 'lpad')

    def op_atomicrmw(self, i, st):
        self.write(st, self.val(i.ops[0]), i.ty, self.atom(i, 'rmw'), (i.blk, i.id))
        return self.atom(i)

    # ------------------------------------------------------------------ calls
    def op_invoke(self, i, st):
        return self.call(i, st)

    def op_call(self, i, st):
        return self.call(i, st)

    def content(self, st, p, ptype):
        """content of what a reference/pointer argument refers to"""
        k = ref_kind(ptype)
        if k == 'obj' and p.op in ('int', 'poly'):
            return p
        return self.read(st, p, k)

    def set_obj(self, st, p, v, tok, keep_elems=False):
        self.drop_object(st, p, tok, keep_elems)
        st.cells[(p, 'obj')] = v
        self.universe.add((p, 'obj'))

    def obj(self, st, p):
        return self.read(st, p, 'obj')

    def call(self, i, st):
        from . import models
        args = [self.val(o) for o in i.ops]
        info = None
        if self.final:
            info = {'args': args}
            self.info[i.id] = info
        r = models.apply(self, i, st, args, info)
        if info is not None:
            info['res'] = r
        return r

    # ------------------------------------------------------------------ facts
    def cond_facts(self, c, pos, out):
        """split a branch condition into atomic facts"""
        if not pos:
            if c.op == 'and':
                out.append(neg_(c))
                return
            c = neg_(c)
        if c.op == 'and':
            self.cond_facts(c.args[0], True, out)
            self.cond_facts(c.args[1], True, out)
            return
        if c.op == 'not' and c.args[0].op == 'not':
            self.cond_facts(c.args[0].args[0], True, out)
            return
        out.append(c)

    def facts(self, b, upto=None):
        """facts that hold whenever block b is entered"""
        fn = self.fn
        cache = getattr(self, '_facts', None)
        if cache is None:
            cache = self._facts = {}
        if b in cache:
            return cache[b]
        out = []
        d = b
        while d != 0:
            d2 = fn.idom[d]
            self.edge_facts(d2, b, out)
            d = d2
        cache[b] = out
        return out

    def edge_facts(self, d, b, out):
        fn = self.fn
        t = fn.blocks[d].term
        if t.op == 'br' and len(t.get('succ')) == 2 and t.get('succ')[0] != t.get('succ')[1]:
            s0, s1 = t.get('succ')
            c = self.asbool(self.val(t.ops[0]))
            if fn.edge_dominates(d, s0, b):
                self.cond_facts(c, True, out)
            elif fn.edge_dominates(d, s1, b):
                self.cond_facts(c, False, out)
            else:
                # one side never reaches b (it leaves by an exception)
                r0, r1 = self._reaches(s0, b, d), self._reaches(s1, b, d)
                if r0 and not r1:
                    self.cond_facts(c, True, out)
                elif r1 and not r0:
                    self.cond_facts(c, False, out)
        elif t.op == 'switch':
            v = self.val(t.ops[0])
            for cv, s in t.get('cases'):
                if fn.edge_dominates(d, s, b) and [x[1] for x in t.get('cases')].count(s) == 1 and s != t.get('default'):
                    out.append(eq0(padd(poly(v), {(): cv}, -1)))

    def _reaches(self, s, b, avoid):
        if s == b:
            return True
        c = getattr(self, '_rch', None)
        if c is None:
            c = self._rch = {}
        k = (s, avoid)
        if k not in c:
            c[k] = self.fn.reachable(s, avoid=(avoid,))
        return b in c[k]
