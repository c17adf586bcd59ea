"""Effect and value models of library functions for the symbolic pass.

Default rule: a `const` method or a `const&` argument is not modified, any
other object passed by address is; the result of a call that modifies nothing
is a pure function of the argument contents.
"""
from . import names
from .terms import (T, mk, const, poly, mkpoly, padd, add, mul, le0, eq0, neg, ptr_add, ptr_parts,
                    NULL, UNDEF, TRUE, FALSE)
from .sym import minmax, neg_, ref_kind

STR = 'std::basic_string'


class Call:
    """decoded call site: this / parameters / constness"""
    __slots__ = ('i', 'short', 'this', 'params', 'ptypes', 'cparams', 'is_const', 'sret', 'ctargs', 'ftargs', 'isctor',
                 'isdtor', 'ret')

    def __init__(self, i, args):
        self.i = i
        q = names.parse(i.dem)
        self.short, self.ptypes, self.is_const, self.ret, self.ftargs, self.ctargs = q
        if not self.ctargs and self.ret is None:
            # not a function template: the last template arguments are those of the class
            self.ftargs, self.ctargs = [], self.ftargs
        a = list(args)
        self.sret = a.pop(0) if i.get('sret') else None
        last = self.short.split('::')
        self.isctor = len(last) > 1 and last[-1] == last[-2].split('<')[0]
        self.isdtor = len(last) > 1 and last[-1].startswith('~')
        self.this = None
        if '::' in self.short and (len(a) > len(self.ptypes) or self.isctor and a):    # empty tag objects are not passed
            self.this = a.pop(0)
        self.params = a
        self.cparams = names.const_params(i.dem)


def decode(i, args):
    return Call(i, args)


def size_of(sym, c):
    """size of a container with content term c"""
    if c.op == 'vec':       # explicitly sized
        return c.args[0]
    if c.op == 'push':
        return add(size_of(sym, c.args[0]), const(1))
    if c.op == 'pop':
        return add(size_of(sym, c.args[0]), const(1), -1)
    if c.op == 'perm':      # same number of elements
        return size_of(sym, c.args[0])
    return mk('size', c)


EXTENT = {'std::vector': 24, 'std::basic_string': 32, 'std::map': 48, 'std::mutex': 40, 'std::condition_variable': 48,
          'std::queue': 80, 'std::deque': 80}


def apply(sym, i, st, args, info):
    tok = (i.blk, i.id)
    if i.dem is None:
        return indirect(sym, i, st, args, info, tok)
    dem = i.dem
    if dem.startswith('gx.'):
        k = dem.split('.')[1]
        if k == 'uninit':
            t = mk('uninit', sym.fn.name, i.id, dem.split('.', 3)[3])
            t.isbool = i.ty == 'i1'
            return t
        return minmax(('f' if dem.split('.')[2][0] == 'f' else '') + k, args[0], args[1])
    if dem.startswith('llvm.'):
        return intrinsic(sym, i, st, args, tok)
    c = Call(i, args)
    if info is not None:
        info['call'] = c
    if i.get('repo'):
        return repo_call(sym, i, st, c, info, tok)
    f = MODELS.get(c.short)
    sz = EXTENT.get(c.short.rsplit('::', 1)[0]) if c.this is not None else None
    sym._sz = (c.this, sz) if sz else None
    try:
        if f is not None:
            r = f(sym, i, st, c, tok)
            if r is not NotImplemented:
                return r
        return generic(sym, i, st, c, tok, info)
    finally:
        sym._sz = None


def intrinsic(sym, i, st, args, tok):
    d = i.dem
    if d.startswith('llvm.memcpy') or d.startswith('llvm.memmove'):
        copy_range(sym, st, args[0], args[1], args[2], tok)
        return None
    if d.startswith('llvm.memset'):
        fill(sym, st, args[0], args[1], args[2], tok)
        return None
    if d.startswith('llvm.umul.with.overflow'):
        return mk('umulov', args[0], args[1])
    if d.startswith('llvm.fmuladd'):
        a, b = sorted(args[:2], key=lambda t: t.uid)
        m = mk('fmul', a, b)
        x, y = sorted((m, args[2]), key=lambda t: t.uid)
        return mk('fadd', x, y)
    if d.startswith('llvm.fabs'):
        return mk('fabs', args[0])
    if d.startswith('llvm.floor'):
        return mk('floor', args[0])
    if d.startswith('llvm.smax') or d.startswith('llvm.umax'):
        return minmax('max', *args)
    if d.startswith('llvm.smin') or d.startswith('llvm.umin'):
        return minmax('min', *args)
    if d.startswith('llvm.abs'):
        return iabs(args[0])
    if d.startswith('llvm.eh.typeid'):
        return mk('typeid', args[0])
    if i.ty == 'void':
        return None
    return mk('intr', d, *args)


def iabs(x):
    y = mkpoly({m: -c for m, c in poly(x).items()})
    return mk('iabs', x if x.uid <= y.uid else y)


def copy_range(sym, st, dst, src, n, tok):
    nn = n.args[0] if n.op == 'int' else None
    rd, od = ptr_parts(dst)
    rs, os_ = ptr_parts(src)
    new = {}
    for (p, ty) in list(sym.universe):
        r, o = ptr_parts(p)
        for root, off in ((rd, od), (rs, os_)):
            if r is root:
                d = padd(o, off, -1)
                d = {m: k for m, k in d.items() if k}
                if not d or set(d) == {()}:
                    k = d.get((), 0)
                    if k >= 0 and (nn is None or k < nn) and ty != 'obj':
                        if nn is None and k:
                            continue
                        q = ptr_add(dst, {(): k} if k else {})
                        s = ptr_add(src, {(): k} if k else {})
                        if s.note and not q.note:
                            q.note = s.note
                        new[(q, ty)] = sym.peek(st, s, ty)
    clobber_range(sym, st, dst, n, tok)
    st.cells.update(new)
    for k in new:
        sym.universe.add(k)


def clobber_range(sym, st, dst, n, tok):
    nn = n.args[0] if n.op == 'int' else None
    rd, od = ptr_parts(dst)
    for k in list(st.cells):
        p = k[0]
        r, o = ptr_parts(p)
        if r is rd:
            d = padd(o, od, -1)
            d = {m: c for m, c in d.items() if c}
            if not d or set(d) == {()}:
                kk = d.get((), 0)
                if kk < 0 or (nn is not None and kk >= nn):
                    continue
            del st.cells[k]
        elif k[1] != 'obj' and dst in sym._chain(p):
            del st.cells[k]
    if sym.nonesc(rd):
        st.clob[('o', rd)] = tok
    else:
        st.clob[('o', dst)] = tok
        if dst.note is None:
            # raw buffer: values of elements change
            for ty in ('double', 'i32', 'i8', 'ptr', 'i64', 'float'):
                pass


def fill(sym, st, dst, v, n, tok):
    clobber_range(sym, st, dst, n, tok)
    if v is const(0) and n.op == 'int' and 0 < n.args[0] <= 256 and ptr_parts(dst)[0].op in ('new', 'alloca'):
        # the bytes of a small object of its own are zero, however they are looked at
        for o in range(0, n.args[0], 4):
            p = ptr_add(dst, {(): o})
            zero = [('i32', const(0))]
            if o + 8 <= n.args[0]:
                zero += [('i64', const(0)), ('ptr', NULL), ('double', mk('fconst', '0'))]
            for ty, z in zero:
                sym.universe.add((p, ty))
                st.cells[(p, ty)] = z


def around(sym, st, c, ptrs):
    """cells an assignment has no way to reach: containers around the objects, and what lies behind them in larger ones"""
    keep = {}
    ty = sym.prog.types.get(c.short.rsplit('::', 1)[0]) if sym.prog is not None else None
    sz = ty['size'] if ty else None
    ptrs = [p for p in ptrs if isinstance(p, T)]
    for k, v in st.cells.items():
        ch = sym._chain(k[0])
        for p in ptrs:
            if k[1] == 'obj' and ptr_parts(p)[0].op == 'elem' and ptr_parts(p)[0].args[0] is k[0]:
                keep[k] = v
            elif sz is not None and p in ch:
                w = sym._within(ch, ch.index(p))
                if w is not None and w >= sz:
                    keep[k] = v
    return keep


def repo_call(sym, i, st, c, info, tok):
    """a repository function kept as a call"""
    if c.isctor or c.isdtor:
        sym.set_obj(st, c.this, mk('made' if c.isctor else 'dead', sym.fn.name, i.id, blk=i.blk), tok)
        return None
    ptrs = []
    pure = True
    if c.this is not None and not c.is_const:
        pure = False
        ptrs.append(c.this)
    for a, k in zip(c.params, c.cparams):
        if k is False:
            pure = False
            ptrs.append(a)
    if '::' in c.short and c.this is None and not c.cparams:
        pure = False
    if not pure:
        keep = around(sym, st, c, ptrs) if c.short.endswith('::operator=') and len(c.params) == 1 else {}
        sym.havoc_all(st, tok, [p for p in ptrs if isinstance(p, T)])
        st.cells.update(keep)
    if c.sret is not None:
        sym.set_obj(st, c.sret, mk('ret', sym.fn.name, i.id, blk=i.blk), tok)
        return None
    if i.ty == 'void':
        return None
    r = mk('ret', sym.fn.name, i.id, blk=i.blk)
    if i.ty == 'i1':
        r.isbool = True
    return r


def indirect(sym, i, st, args, info, tok):
    fty = i.get('fty')
    f = sym.val(i.get('indirect'))
    if info is not None:
        info['fptr'] = f
    if fty.startswith('double (ptr, ptr, double, ptr'):
        # a distance function: reads both series, may write only the alignment
        sym.set_obj(st, args[3], mk('upd', sym.fn.name, i.id, blk=i.blk), tok)
        return mk('ret', sym.fn.name, i.id, blk=i.blk)
    if fty == 'void (ptr)' and f.op == 'ld':
        # virtual destructor
        return None
    sym.havoc_all(st, tok, args)
    if i.ty == 'void':
        return None
    r = mk('ret', sym.fn.name, i.id, blk=i.blk)
    if i.ty == 'i1':
        r.isbool = True
    return r


def touched(sym, st, p, tok, i, n=0):
    """object p may have been modified by the call"""
    if p.op == 'vit':
        sym.drop_object(st, p.args[0], tok)
        old = None
        st.cells[(p.args[0], 'obj')] = mk('upd', sym.fn.name, i.id, n, blk=i.blk)
        return
    if p.op in ('null', 'int', 'undef', 'opaque', 'poly'):
        return
    sym.set_obj(st, p, mk('upd', sym.fn.name, i.id, n, blk=i.blk), tok)
    for ty in ('i32', 'i64', 'double', 'i8', 'ptr', 'float'):
        if (p, ty) in sym.universe:
            st.cells[(p, ty)] = mk('upd', sym.fn.name, i.id, n, ty, blk=i.blk)
            if p.note:
                st.clob[('f', p.note, ty)] = tok


def generic(sym, i, st, c, tok, info=None):
    pure = True
    vals = []
    if c.this is not None:
        if c.isctor:
            pass
        elif c.is_const:
            vals.append(sym.read(st, c.this, 'obj') if c.this.op not in ('vit',) else c.this)
        else:
            pure = False
    for a, pt, k in zip(c.params, c.ptypes, c.cparams):
        if k is True:
            vals.append(sym.content(st, a, pt) if a.op not in ('null', 'vit') else a)
        elif k is None:
            # by value; class types are passed by address
            if ref_kind(pt + '&') == 'obj' and pt not in ('void',) and a.op in ('alloca', 'ptr', 'elem', 'arg'):
                vals.append(sym.read(st, a, 'obj'))
            else:
                vals.append(a)
        else:
            pure = False
            vals.append(a)
    if len(c.params) > len(c.ptypes):
        vals.extend(c.params[len(c.ptypes):])
    if info is not None:
        info['vals'] = vals
    if c.isctor:
        v = mk('ctor', c.short, tuple(c.ctargs), tuple(vals))
        for n, (a, k) in enumerate(zip(c.params, c.cparams)):
            if k is False:
                touched(sym, st, a, tok, i, n + 1)
        sym.set_obj(st, c.this, v, tok)
        return None
    if not pure:
        if c.this is not None and not c.is_const:
            touched(sym, st, c.this, tok, i)
        for n, (a, k) in enumerate(zip(c.params, c.cparams)):
            if k is False:
                touched(sym, st, a, tok, i, n + 1)
        for a, k in zip(c.params, c.cparams):
            if k is None and a.op == 'vit':
                pass
    if any(a.op == 'vit' for a in c.params) and c.short.startswith('std::') and not pure:
        pass
    if pure:
        t = mk('call', c.short, tuple(c.ftargs), tuple(vals))
    else:
        t = mk('ret', sym.fn.name, i.id, blk=i.blk)
    if c.sret is not None:
        sym.set_obj(st, c.sret, t, tok)
        return None
    if i.ty == 'void':
        return None
    if i.ty == 'i1':
        t.isbool = True
    return t


# --------------------------------------------------------------------- models
MODELS = {}


def model(*ns):
    def d(f):
        for n in ns:
            MODELS[n] = f
        return f
    return d


# --- vectors
@model('std::vector::operator[]', 'std::vector::at')
def _v_index(sym, i, st, c, tok):
    sym.obj(st, c.this)
    return mk('elem', c.this, c.params[0])


@model('std::vector::front')
def _v_front(sym, i, st, c, tok):
    return mk('elem', c.this, const(0))


@model('std::vector::back')
def _v_back(sym, i, st, c, tok):
    return mk('elem', c.this, add(size_of(sym, sym.obj(st, c.this)), const(1), -1))


@model('std::vector::data')
def _v_data(sym, i, st, c, tok):
    return mk('elem', c.this, const(0))


@model('std::vector::size')
def _v_size(sym, i, st, c, tok):
    return size_of(sym, sym.obj(st, c.this))


@model('std::vector::empty')
def _v_empty(sym, i, st, c, tok):
    s = size_of(sym, sym.obj(st, c.this))
    # size <= 0
    return le0(poly(s))


@model('std::vector::begin', 'std::vector::cbegin')
def _v_begin(sym, i, st, c, tok):
    return mk('vit', c.this, const(0))


@model('std::vector::end', 'std::vector::cend')
def _v_end(sym, i, st, c, tok):
    return mk('vit', c.this, size_of(sym, sym.obj(st, c.this)))


@model('std::vector::push_back', 'std::vector::emplace_back')
def _v_push(sym, i, st, c, tok):
    old = sym.obj(st, c.this)
    slot = mk('elem', c.this, size_of(sym, old))
    if c.short.endswith('push_back') and c.params:
        p = c.params[0]
        new = {}
        for (q, ty) in list(sym.universe):
            r, o = ptr_parts(q)
            rp, op_ = ptr_parts(p)
            if r is rp:
                d = {m: k for m, k in padd(o, op_, -1).items() if k}
                if not d or set(d) == {()} and 0 <= d[()] < 256:
                    new[(ptr_add(slot, d), ty)] = sym.peek(st, q, ty)
        st.cells.update(new)
    st.cells[(c.this, 'obj')] = mk('push', old, i.id, sym.fn.name, blk=i.blk)
    sym.universe.add((c.this, 'obj'))
    if c.short.endswith('emplace_back') and i.ty == 'ptr':
        return slot
    return None


@model('std::vector::pop_back')
def _v_pop(sym, i, st, c, tok):
    old = sym.obj(st, c.this)
    st.cells[(c.this, 'obj')] = mk('pop', old, i.id, sym.fn.name, blk=i.blk)
    return None


@model('std::vector::clear')
def _v_clear(sym, i, st, c, tok):
    sym.set_obj(st, c.this, mk('vec', const(0), 'clear'), tok)
    return None


@model('std::vector::resize')
def _v_resize(sym, i, st, c, tok):
    sym.drop_object(st, c.this, tok, keep_elems=True)
    st.cells[(c.this, 'obj')] = mk('vec', c.params[0], ('resize', sym.fn.name, i.id), blk=i.blk)
    sym.universe.add((c.this, 'obj'))
    return None


@model('std::vector::erase')
def _v_erase(sym, i, st, c, tok):
    old = size_of(sym, sym.obj(st, c.this))
    a = c.params[0]
    b = c.params[1] if len(c.params) > 1 else None
    n = None
    if a.op == 'vit' and (b is None or b.op == 'vit' and b.args[0] is a.args[0]):
        n = add(old, const(1) if b is None else add(b.args[1], a.args[1], -1), -1)
    sym.drop_object(st, c.this, tok, keep_elems=False)
    st.cells[(c.this, 'obj')] = mk('vec', n, ('erase', sym.fn.name, i.id), blk=i.blk) if n is not None else \
        mk('upd', sym.fn.name, i.id, 0, blk=i.blk)
    sym.universe.add((c.this, 'obj'))
    return mk('vit', c.this, a.args[1]) if a.op == 'vit' else sym.atom(i, 'ret')


@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def _v_reserve(sym, i, st, c, tok):
    return None


@model('std::vector::vector')
def _v_ctor(sym, i, st, c, tok):
    if not c.ptypes:
        sym.set_obj(st, c.this, mk('vec', const(0), 'init'), tok)
        return None
    p0 = c.ptypes[0]
    if p0 == 'unsigned long':
        sym.set_obj(st, c.this, mk('vec', c.params[0], ('ctor', sym.fn.name, i.id), blk=i.blk), tok)
        return None
    if p0.startswith('std::vector<'):
        v = sym.obj(st, c.params[0])
        sym.set_obj(st, c.this, v, tok)
        if p0.endswith('&&'):
            move_elems(sym, st, c.params[0], c.this)
            sym.set_obj(st, c.params[0], mk('vec', const(0), 'moved'), tok)
        return None
    return NotImplemented


def move_elems(sym, st, src, dst):
    new = {}
    for (q, ty), v in list(st.cells.items()):
        ch = sym._chain(q)
        if src in ch and q is not src:
            n = rebase(q, src, dst)
            if n is not None:
                new[(n, ty)] = v
    st.cells.update(new)


def rebase(t, src, dst):
    if t is src:
        return dst
    if t.op == 'ptr':
        r = rebase(t.args[0], src, dst)
        return None if r is None else ptr_add(r, poly(t.args[1]))
    if t.op in ('elem', 'node'):
        r = rebase(t.args[0], src, dst)
        return None if r is None else mk(t.op, r, *t.args[1:])
    return None


@model('std::vector::operator=')
def _v_assign(sym, i, st, c, tok):
    if c.ptypes and c.ptypes[0].startswith('std::vector<'):
        v = sym.obj(st, c.params[0])
        sym.set_obj(st, c.this, v, tok)
        if c.ptypes[0].endswith('&&'):
            move_elems(sym, st, c.params[0], c.this)
            sym.set_obj(st, c.params[0], mk('vec', const(0), 'moved'), tok)
        return c.this
    return NotImplemented


@model('std::vector::insert')
def _v_insert(sym, i, st, c, tok):
    sym.drop_object(st, c.this, tok)
    st.cells[(c.this, 'obj')] = mk('upd', sym.fn.name, i.id, 0, blk=i.blk)
    return sym.atom(i, 'ret')


# --- vector iterators
@model('__gnu_cxx::__normal_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->')
def _it_deref(sym, i, st, c, tok):
    it = sym.read(st, c.this, 'ptr')
    if it.op == 'vit':
        return mk('elem', it.args[0], it.args[1])
    return it


@model('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--')
def _it_inc(sym, i, st, c, tok):
    it = sym.read(st, c.this, 'ptr')
    k = 1 if c.short.endswith('++') else -1
    if it.op == 'vit':
        n = mk('vit', it.args[0], add(it.args[1], const(k)))
    else:
        n = mk('next', it, k)
    sym.write(st, c.this, 'ptr', n, tok)
    return it if c.ptypes else c.this


@model('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-')
def _it_add(sym, i, st, c, tok):
    it = sym.read(st, c.this, 'ptr')
    k = 1 if c.short.endswith('+') else -1
    if it.op == 'vit':
        return mk('vit', it.args[0], add(it.args[1], c.params[0], k))
    return mk('itadd', it, c.params[0], k)


@model('__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def _it_addeq(sym, i, st, c, tok):
    it = sym.read(st, c.this, 'ptr')
    k = 1 if c.short.endswith('+=') else -1
    n = mk('vit', it.args[0], add(it.args[1], c.params[0], k)) if it.op == 'vit' else mk('itadd', it, c.params[0], k)
    sym.write(st, c.this, 'ptr', n, tok)
    return c.this


@model('__gnu_cxx::__normal_iterator::operator[]')
def _it_idx(sym, i, st, c, tok):
    it = sym.read(st, c.this, 'ptr')
    if it.op == 'vit':
        return mk('elem', it.args[0], add(it.args[1], c.params[0]))
    return NotImplemented


@model('__gnu_cxx::__normal_iterator::__normal_iterator')
def _it_ctor(sym, i, st, c, tok):
    if c.params:
        v = sym.read(st, c.params[0], 'ptr')
        sym.write(st, c.this, 'ptr', v, tok)
        return None
    return NotImplemented


@model('__gnu_cxx::__normal_iterator::base')
def _it_base(sym, i, st, c, tok):
    return c.this


@model('__gnu_cxx::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator<', '__gnu_cxx::operator-',
       'std::operator==', 'std::operator!=')
def _it_cmp(sym, i, st, c, tok):
    if len(c.params) != 2 or ref_kind(c.ptypes[0]) != 'ptr' or '_iterator' not in c.ptypes[0]:
        if c.short in ('std::operator==', 'std::operator!=') and len(c.params) == 2:
            return str_eq(sym, i, st, c, tok)
        return NotImplemented
    a, b = sym.read(st, c.params[0], 'ptr'), sym.read(st, c.params[1], 'ptr')
    if c.short.endswith('operator-'):
        if a.op == 'vit' and b.op == 'vit' and a.args[0] is b.args[0]:
            return add(a.args[1], b.args[1], -1)
        return mk('itdiff', a, b)
    if c.short.endswith('<'):
        return sym.pcmp('ult', a, b)
    return sym.pcmp('eq' if c.short.endswith('==') else 'ne', a, b)


def str_eq(sym, i, st, c, tok):
    vs = []
    for a, pt in zip(c.params, c.ptypes):
        if pt.startswith('char const*'):
            vs.append(mk('str', a))
        else:
            vs.append(sym.content(st, a, pt))
    vs.sort(key=lambda t: t.uid)
    t = mk('streq', *vs)
    t.isbool = True
    return t if c.short.endswith('==') else neg_(t)


# --- algorithms on iterator ranges
@model('std::sort', 'std::make_heap', 'std::push_heap', 'std::pop_heap', 'std::reverse', 'std::stable_sort',
       'std::sort_heap', 'std::partial_sort')
def _perm(sym, i, st, c, tok):
    a = c.params[0]
    if a.op == 'vit':
        v = a.args[0]
        old = sym.obj(st, v)
        sym.set_obj(st, v, mk('perm', old, c.short, i.id, sym.fn.name, blk=i.blk), tok)
        return None
    sym.havoc_all(st, tok, [p for p in c.params if isinstance(p, T)])
    return None


# --- maps
@model('std::map::find')
def _m_find(sym, i, st, c, tok):
    return mk('find', c.this, sym.obj(st, c.this), sym.content(st, c.params[0], c.ptypes[0]))


@model('std::map::end', 'std::map::cend')
def _m_end(sym, i, st, c, tok):
    return mk('mend', c.this, sym.obj(st, c.this))


@model('std::map::begin', 'std::map::cbegin')
def _m_begin(sym, i, st, c, tok):
    return mk('mbegin', c.this, sym.obj(st, c.this))


def key_off(c):
    k = c.ctargs[0] if c.ctargs else ''
    if 'basic_string' in k:
        return 32
    return 8


@model('std::map::operator[]')
def _m_index(sym, i, st, c, tok):
    old = sym.obj(st, c.this)
    key = sym.content(st, c.params[0], c.ptypes[0])
    node = mk('node', c.this, key)
    st.cells[(c.this, 'obj')] = mk('mins', old, key)
    sym.universe.add((c.this, 'obj'))
    return ptr_add(node, {(): key_off(c)})


@model('std::map::at')
def _m_at(sym, i, st, c, tok):
    key = sym.content(st, c.params[0], c.ptypes[0])
    sym.obj(st, c.this)
    return ptr_add(mk('node', c.this, key), {(): key_off(c)})


@model('std::map::count')
def _m_count(sym, i, st, c, tok):
    return mk('count', sym.obj(st, c.this), sym.content(st, c.params[0], c.ptypes[0]))


@model('std::map::size')
def _m_size(sym, i, st, c, tok):
    return mk('size', sym.obj(st, c.this))


@model('std::map::empty')
def _m_empty(sym, i, st, c, tok):
    return le0(poly(mk('size', sym.obj(st, c.this))))


@model('std::map::clear')
def _m_clear(sym, i, st, c, tok):
    sym.set_obj(st, c.this, mk('vec', const(0), 'clear'), tok)
    return None


@model('std::map::map')
def _m_ctor(sym, i, st, c, tok):
    if not c.ptypes:
        sym.set_obj(st, c.this, mk('vec', const(0), 'init'), tok)
        return None
    return NotImplemented


@model('std::map::erase')
def _m_erase(sym, i, st, c, tok):
    old = sym.obj(st, c.this)
    a = c.params[0]
    if ref_kind(c.ptypes[0]) == 'ptr' or c.cparams[0] is None:
        key = a.args[2] if a.op == 'find' else mk('itkey', a)
    else:
        key = sym.content(st, a, c.ptypes[0])
    sym.drop_object(st, c.this, tok)
    st.cells[(c.this, 'obj')] = mk('mdel', old, key, i.id, sym.fn.name, blk=i.blk)
    return sym.atom(i, 'ret') if i.ty != 'void' else None


@model('std::map::insert', 'std::map::emplace')
def _m_insert(sym, i, st, c, tok):
    old = sym.obj(st, c.this)
    if c.short == 'std::map::insert' and c.params[0].op == 'alloca' and len(c.ctargs or []) > 1 and \
            c.ctargs[1] == 'genex::GroupableTimeSeriesSet*' and c.ptypes[0].startswith('std::pair<'):
        # registering a dataset: C02 requires the name to be absent wherever the registry receives one
        key = sym.read(st, c.params[0], 'obj')
        v = sym.read(st, ptr_add(c.params[0], {(): key_off(c)}), 'ptr')
        st.cells[(c.this, 'obj')] = mk('mins', old, key)
        sym.universe.add((c.this, 'obj'))
        slot = (ptr_add(mk('node', c.this, key), {(): key_off(c)}), 'ptr')
        st.cells[slot] = v
        sym.universe.add(slot)
        return sym.atom(i, 'ret')
    sym.drop_object(st, c.this, tok)
    st.cells[(c.this, 'obj')] = mk('minsu', old, i.id, sym.fn.name, blk=i.blk)
    return sym.atom(i, 'ret')


@model('std::_Rb_tree_iterator::operator*', 'std::_Rb_tree_iterator::operator->',
       'std::_Rb_tree_const_iterator::operator*', 'std::_Rb_tree_const_iterator::operator->')
def _mi_deref(sym, i, st, c, tok):
    it = sym.read(st, c.this, 'ptr')
    if it.op == 'find':
        return mk('node', it.args[0], it.args[2])
    # element reached by iteration: identify the container when the iterator is known to run over it
    m = iter_map(sym, it)
    if m is not None:
        return mk('node', m, mk('itkey', it))
    return mk('itnode', it)


def iter_map(sym, it, seen=None):
    """map an iterator term runs over (through increments and loop merges)"""
    seen = seen if seen is not None else set()
    if it.uid in seen:
        return None
    seen.add(it.uid)
    if it.op in ('mbegin', 'mend', 'find'):
        return it.args[0]
    if it.op == 'next':
        return iter_map(sym, it.args[0], seen)
    if it.op == 'phi' and it in sym.hent:
        return iter_map(sym, sym.hent[it], seen)
    if it.op == 'phi' and it in sym.minc:
        rs = set()
        for v in sym.minc[it].values():
            if v.uid in seen:
                continue
            r = iter_map(sym, v, seen)
            if r is not None:
                rs.add(r)
        if len(rs) == 1:
            return rs.pop()
    return None


@model('std::_Rb_tree_iterator::operator++', 'std::_Rb_tree_const_iterator::operator++')
def _mi_inc(sym, i, st, c, tok):
    it = sym.read(st, c.this, 'ptr')
    sym.write(st, c.this, 'ptr', mk('next', it, 1), tok)
    return it if c.ptypes else c.this


@model('std::_Rb_tree_const_iterator::_Rb_tree_const_iterator')
def _mi_conv(sym, i, st, c, tok):
    if c.params:
        sym.write(st, c.this, 'ptr', sym.read(st, c.params[0], 'ptr'), tok)
        return None
    return NotImplemented


# --- strings
@model('std::basic_string::clear')
def _s_clear(sym, i, st, c, tok):
    sym.set_obj(st, c.this, mk('str0'), tok)
    return None


@model('std::basic_string::basic_string')
def _s_ctor(sym, i, st, c, tok):
    if not c.ptypes:
        sym.set_obj(st, c.this, mk('str0'), tok)
        return None
    if c.ptypes[0].startswith('std::__cxx11::basic_string<') and len([p for p in c.ptypes if 'allocator<char> const&' != p[-21:]]) >= 1 \
            and (len(c.ptypes) == 1):
        v = sym.obj(st, c.params[0])
        sym.set_obj(st, c.this, v, tok)
        if c.ptypes[0].endswith('&&'):
            sym.set_obj(st, c.params[0], mk('moved', i.id, sym.fn.name), tok)
        return None
    if c.ptypes[0].startswith('char const*') and len(c.ptypes) <= 2 and (len(c.ptypes) == 1 or 'allocator' in c.ptypes[1]):
        sym.set_obj(st, c.this, mk('str', c.params[0]), tok)
        return None
    return NotImplemented


@model('std::basic_string::operator=')
def _s_assign(sym, i, st, c, tok):
    if c.ptypes[0].startswith('std::__cxx11::basic_string<'):
        v = sym.obj(st, c.params[0])
        sym.set_obj(st, c.this, v, tok)
        if c.ptypes[0].endswith('&&'):
            sym.set_obj(st, c.params[0], mk('moved', i.id, sym.fn.name), tok)
        return c.this
    if c.ptypes[0].startswith('char const*'):
        sym.set_obj(st, c.this, mk('str', c.params[0]), tok)
        return c.this
    return NotImplemented


@model('std::basic_string::c_str', 'std::basic_string::data')
def _s_cstr(sym, i, st, c, tok):
    return mk('cstr', sym.obj(st, c.this))


@model('std::basic_string::length', 'std::basic_string::size')
def _s_len(sym, i, st, c, tok):
    return mk('strlen', sym.obj(st, c.this))


@model('std::operator+')
def _s_concat(sym, i, st, c, tok):
    if c.sret is None or len(c.params) != 2:
        return NotImplemented
    vs = []
    for a, pt in zip(c.params, c.ptypes):
        if pt.startswith('char const*'):
            vs.append(mk('str', a))
        elif 'basic_string' in pt:
            vs.append(sym.obj(st, a))
        else:
            vs.append(a)
    sym.set_obj(st, c.sret, mk('concat', *vs), tok)
    return None


@model('std::move', 'std::forward', 'std::addressof', 'std::__addressof', 'std::ref')
def _identity(sym, i, st, c, tok):
    return c.params[0]


@model('std::numeric_limits::infinity')
def _inf(sym, i, st, c, tok):
    return mk('fconst', 'inf')


@model('std::numeric_limits::max')
def _nlmax(sym, i, st, c, tok):
    return mk('nlmax', i.ty)


@model('sqrt', 'pow', 'floor', 'ceil', 'exp', 'log', 'fabs', 'std::sqrt', 'std::floor', 'std::ceil', 'std::isnan',
       'std::isinf', 'round')
def _math(sym, i, st, c, tok):
    n = c.short.split('::')[-1]
    t = mk(n, *c.params)
    if i.ty == 'i1':
        t.isbool = True
    return t


@model('std::abs', 'abs')
def _abs(sym, i, st, c, tok):
    return mk('fabs', c.params[0]) if i.ty == 'double' else iabs(c.params[0])


@model('operator new', 'operator new[]')
def _new(sym, i, st, c, tok):
    return mk('new', sym.fn.name, i.id, blk=i.blk)


@model('operator delete', 'operator delete[]', 'free')
def _delete(sym, i, st, c, tok):
    return None


@model('__cxa_allocate_exception')
def _exc(sym, i, st, c, tok):
    return mk('new', sym.fn.name, i.id, blk=i.blk)


@model('__cxa_throw', '__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_rethrow')
def _cxa(sym, i, st, c, tok):
    return sym.atom(i, 'ret') if i.ty != 'void' else None


@model('memcpy', 'memmove')
def _memcpy(sym, i, st, c, tok):
    copy_range(sym, st, c.params[0], c.params[1], c.params[2], tok)
    return c.params[0]


@model('memset')
def _memset(sym, i, st, c, tok):
    fill(sym, st, c.params[0], c.params[1], c.params[2], tok)
    return c.params[0]


@model('strcmp', 'strlen')
def _cstr(sym, i, st, c, tok):
    return mk(c.short, *c.params)


@model('std::shared_ptr::operator->', 'std::__shared_ptr_access::operator->', 'std::__shared_ptr_access::operator*',
       'std::__shared_ptr::get')
def _sp(sym, i, st, c, tok):
    return mk('sp', sym.obj(st, c.this))


# --- unique_ptr: a cell holding the owned pointer
@model('std::unique_ptr::operator->', 'std::unique_ptr::operator*', 'std::unique_ptr::get')
def _up_get(sym, i, st, c, tok):
    return sym.read(st, c.this, 'ptr')


@model('std::unique_ptr::unique_ptr')
def _up_ctor(sym, i, st, c, tok):
    if not c.params or c.ptypes[0] == 'decltype(nullptr)':
        sym.write(st, c.this, 'ptr', NULL, tok)
    elif c.ptypes[0].startswith('std::unique_ptr'):
        sym.write(st, c.this, 'ptr', sym.read(st, c.params[0], 'ptr'), tok)
        sym.write(st, c.params[0], 'ptr', NULL, tok)
    else:
        sym.write(st, c.this, 'ptr', c.params[0], tok)
    return None


@model('std::unique_ptr::release')
def _up_release(sym, i, st, c, tok):
    v = sym.read(st, c.this, 'ptr')
    sym.write(st, c.this, 'ptr', NULL, tok)
    return v


@model('std::unique_ptr::reset', 'std::unique_ptr::operator=', 'std::unique_ptr::~unique_ptr')
def _up_reset(sym, i, st, c, tok):
    v = sym.read(st, c.this, 'ptr')
    if sym.final:
        sym.info[i.id]['deleted'] = v
    if c.short.endswith('operator=') and c.ptypes[0].startswith('std::unique_ptr'):
        n = sym.read(st, c.params[0], 'ptr')
        sym.write(st, c.params[0], 'ptr', NULL, tok)
    elif c.short.endswith('reset') and c.params:
        n = c.params[0]
    else:
        n = NULL
    sym.write(st, c.this, 'ptr', n, tok)
    return c.this if i.ty == 'ptr' else None


@model('std::unique_ptr::operator bool')
def _up_bool(sym, i, st, c, tok):
    return sym.pcmp('ne', sym.read(st, c.this, 'ptr'), NULL)
