"""Helpers for analysing the public interface class: dataset maps, presence of names, effects."""
from . import build, names
from .core import AnalysisBroken
from .models import decode
from .terms import T, mk, ptr_parts, subterms, NULL, UNDEF

API = 'genex::GenexAPI'
DS = 'genex::GroupableTimeSeriesSet'
BASE = 'genex::TimeSeriesSet'
PAA = 'genex::PAAWrapper'

# functions that stay calls when the interface class is flattened
SINKS = [
    r'^genex::TimeSeriesSet::(loadData|saveData|clearData|getItemLength|getItemCount|getMaxLength|getTimeSeriesName|'
    r'getFilePath|getTimeSeries|normalize|isNormalized|isLoaded|getKBestMatchesBruteForce|TimeSeriesSet|~TimeSeriesSet)\(',
    r'^genex::GroupableTimeSeriesSet::(groupAllLengths|isGrouped|reset|getTotalNumberOfGroups|saveGroupsOld|loadGroupsOld|'
    r'getBestMatch|getKBestMatches|getDistanceName|getThreshold|GroupableTimeSeriesSet|~GroupableTimeSeriesSet)\(',
    r'^genex::PAAWrapper::(generatePAAMatrix|getKBestMatchesPAA|PAAWrapper|~PAAWrapper)\(',
    r'^genex::TimeSeries::(TimeSeries|~TimeSeries|operator=)\(',
    r'^genex::(getDistanceFromName|getAllDistanceName|setWarpingBandRatio)(\[abi[^]]*\])?\(',
    r' genex::(saveToFile|loadFromFile)<', r'^genex::(saveToFile|loadFromFile)\(',
    r' genex::(getDistanceFromName|getAllDistanceName)\(',
]

PLAN = [r'root	^genex::GenexAPI::[A-Za-z_~]+\('] + ['keep\t' + s for s in SINKS] + \
    ['inline\t' + x for x in build.INLINE_STD]

PUBLIC = {
    # method: parameter positions that name datasets which must be loaded
    'loadDataset': [], 'saveDataset': [0], 'unloadDataset': [0], 'unloadAllDataset': [], 'getDatasetCount': [],
    'getDatasetInfo': [0], 'getTimeSeriesName': [0], 'getTimeSeriesLength': [0], 'getAllDatasetInfo': [],
    'getAllDistanceInfo': [], 'getTimeSeries': [0], 'normalizeDataset': [0], 'groupDataset': [0], 'saveGroups': [0],
    'loadGroups': [0], 'saveGroupsOld': [0], 'loadGroupsOld': [0], 'setWarpingBandRatio': [], 'getBestMatch': [0, 1],
    'getKBestMatches': [2, 3], 'getKBestMatchesBruteForce': [1, 2], 'preparePAA': [0], 'getKBestMatchesPAA': [1, 2],
    'distanceBetween': [0, 4], 'matchingBetween': [0, 4],
}


def program(ctx):
    return ctx.prog(PLAN)


def method(ctx, name):
    p = program(ctx)
    fs = [f for f in p.find(API + '::' + name)]
    need = max(PUBLIC.get(name, [0]) or [0]) + 1
    fs = [f for f in fs if len(f.params) >= need or not PUBLIC.get(name)]
    if not fs:
        raise AnalysisBroken('public operation %s not found' % name)
    fs.sort(key=lambda f: -len(f.params))
    return fs[0]


def sym(ctx, f):
    # dataset objects have no way to reach the interface object or the argument strings
    return ctx.sym(f, program(ctx), stable=lambda r: r.op == 'arg' and r.args[1] != 'sret')


def is_ds_map(i):
    """call on the map from names to datasets"""
    return i.is_call and i.dem and 'std::map<' in i.dem.split('(')[0] and 'genex::GroupableTimeSeriesSet*' in _cls(i)


def is_paa_map(i):
    return i.is_call and i.dem and 'std::map<' in i.dem.split('(')[0] and 'genex::PAAWrapper*' in _cls(i)


def _cls(i):
    q = names.parse(i.dem)
    ta = (q[5] or []) + (q[4] or [])
    return ' '.join(ta)


class Maps:
    """the dataset and PAA maps of one flattened interface method, identified by their element types"""

    def __init__(self, sym):
        self.sym = sym
        self.ds = self.paa = None
        for i in sym.fn.instrs():
            if i.is_call and i.dem and i.short.startswith('std::map::'):
                info = sym.info.get(i.id)
                if not info or 'call' not in info or info['call'].this is None:
                    continue
                if is_ds_map(i):
                    self.ds = info['call'].this
                elif is_paa_map(i):
                    self.paa = info['call'].this


def key_from_map(key):
    """the key was taken from the map itself while iterating over it"""
    return key.op == 'ld' and ptr_parts(key.args[0])[0].op == 'node' and \
        ptr_parts(key.args[0])[0].args[1].op == 'itkey'


class Presence:
    """which names are known to be present / absent in a map at a program point"""

    def __init__(self, sym):
        self.sym = sym

    def facts(self, blk):
        pos, neg = [], []
        for f in self.sym.facts(blk):
            n = False
            if f.op == 'not':
                f, n = f.args[0], True
            if f.op == 'present':
                (neg if n else pos).append((f.args[0], f.args[1]))
            elif f.op == 'eq0':
                # count(k) == 0 / != 0
                t = f.args[0]
                if t.op == 'count':
                    (pos if n else neg).append((t.args[0], t.args[1]))
            elif f.op == 'le0':
                t = f.args[0]
                # count <= 0 : absent ; 1 - count <= 0 : present
                if t.op == 'count':
                    neg.append((t.args[0], t.args[1]))
                elif t.op == 'poly' and len(t.args[1]) == 1 and len(t.args[1][0][0]) == 1 \
                        and t.args[1][0][0][0].op == 'count':
                    c = t.args[1][0][0][0]
                    if t.args[1][0][1] < 0 and t.args[0] >= 1:
                        pos.append((c.args[0], c.args[1]))
        return pos, neg

    def strip(self, c, pos):
        """content with insertions of keys already present removed"""
        while c.op == 'mins':
            if key_from_map(c.args[1]) or self._has(c.args[0], c.args[1], pos):
                c = c.args[0]
                continue
            break
        return c

    def _has(self, c, k, pos):
        if key_from_map(k):
            return True
        if c.op == 'mins':
            if c.args[1] is k:
                return True
            return self._has(c.args[0], k, pos) or any(a is c and b is k for a, b in pos)
        for a, b in pos:
            if b is k:
                if a is c:
                    return True
                # fact about a later content of the same map: strip insertions of other keys that were present
                if self._norm(a, pos, k) is c:
                    return True
        return False

    def _norm(self, a, pos, k):
        while a.op == 'mins' and a.args[1] is not k:
            if any(y is a.args[1] for _, y in pos) or key_from_map(a.args[1]):
                a = a.args[0]
            else:
                break
        return a

    def present(self, blk, content, key):
        pos, _ = self.facts(blk)
        return self._has(content, key, pos)

    def absent(self, blk, content, key):
        pos, neg = self.facts(blk)
        for a, b in neg:
            if b is key and (a is content or self._norm(a, pos, key) is content or
                             self._norm(content, pos, key) is a):
                return True
        return False

    def infeasible(self, blk):
        """the facts at the block contradict each other"""
        pos, neg = self.facts(blk)
        for a, b in neg:
            if self._has(a, b, pos):
                return True
        return False


def local(sym, p):
    """pointer into an object created by this activation"""
    r = sym._chain(p)[-1]
    return r.op in ('alloca', 'new') or (r.op == 'arg' and r.args[1] == 'sret')


PURE_LIB = ('__cxa_allocate_exception', '__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_throw')


def effects(sym):
    """instructions with an effect visible outside the activation: (instr, description)"""
    out = []
    for i in sym.fn.instrs():
        if i.op == 'store':
            p = sym.info[i.id]['ptr']
            if not local(sym, p):
                out.append((i, 'writes %s' % p))
        elif i.is_call:
            info = sym.info.get(i.id)
            if i.dem is None:
                out.append((i, 'calls through a pointer'))
                continue
            if i.dem.startswith('llvm.') or i.dem.startswith('gx.') or i.short in PURE_LIB:
                continue
            c = info['call']
            if i.get('repo'):
                if c.isctor and local(sym, c.this):
                    out.append((i, 'constructs %s' % c.short))
                    continue
                if c.isdtor and local(sym, c.this):
                    continue
                out.append((i, 'calls %s' % c.short))
                continue
            if c.isctor or c.isdtor:
                if c.this is not None and not local(sym, c.this):
                    out.append((i, 'calls %s' % c.short))
                continue
            if c.short in ('operator new', 'operator new[]'):
                out.append((i, 'allocates'))
                continue
            if c.short in ('std::map::find', 'std::map::end', 'std::map::begin', 'std::map::at', 'std::map::count',
                           'std::map::size', 'std::map::empty', 'std::_Rb_tree_iterator::operator*',
                           'std::_Rb_tree_iterator::operator->', 'std::move', 'std::forward'):
                continue
            if c.this is not None and not c.is_const and not local(sym, c.this):
                out.append((i, 'calls %s on shared state' % c.short))
                continue
            for a, k in zip(c.params, c.cparams):
                if k is False and isinstance(a, T) and not local(sym, a):
                    out.append((i, 'calls %s on shared state' % c.short))
                    break
            else:
                if c.short.startswith('std::basic_ofstream') or c.short.startswith('std::basic_ifstream'):
                    out.append((i, 'calls %s' % c.short))
    return out


def throw_type(sym, i):
    """mangled typeinfo of a __cxa_throw"""
    t = sym.info[i.id]['args'][1]
    return t.args[0] if t.op == 'global' else None


GENEX_EXC = '_ZTIN5genex14GenexExceptionE'


# ------------------------------------------------------------------ ownership events
def deletions(sym):
    """(instr, pointer term) for every scalar delete, virtual ones included"""
    out = []
    for i in sym.fn.instrs():
        if not i.is_call:
            continue
        info = sym.info[i.id]
        if i.dem is None:
            f = info.get('fptr')
            if i.get('fty') == 'void (ptr)' and f is not None and f.op == 'ld':
                r, off = ptr_parts(f.args[0])
                if r.op == 'ld' and r.args[0] is info['args'][0] and off == {(): 8}:
                    out.append((i, info['args'][0]))
        elif i.short == 'operator delete':
            out.append((i, info['args'][0]))
        elif info.get('deleted') is not None:
            for v in alternatives(sym, info['deleted']):
                if v is not NULL:
                    out.append((i, v))
    return out


def alternatives(sym, v, depth=0):
    if depth < 6 and v.op == 'sel':
        return alternatives(sym, v.args[1], depth + 1) | alternatives(sym, v.args[2], depth + 1)
    if depth < 6 and v.op == 'phi' and v in sym.minc:
        r = set()
        for x in sym.minc[v].values():
            if x is not v:
                r |= alternatives(sym, x, depth + 1)
        return r
    return {v}


def null_edge(sym, b, s, o):
    """taking the edge b -> s means pointer o is null"""
    t = sym.fn.blocks[b].term
    if t.op != 'br' or len(t.get('succ')) != 2:
        return False
    c = sym.asbool(sym.val(t.ops[0]))
    pos = True
    if c.op == 'not':
        c, pos = c.args[0], False
    if c.op != 'peq' or NULL not in c.args or o not in c.args:
        return False
    return t.get('succ')[0 if pos else 1] == s


def reaches_without(sym, target, stops, skip_edge=None, start=0):
    """is instruction/block `target` reachable from the start without passing an instruction in stops?"""
    fn = sym.fn
    tb = target.blk if hasattr(target, 'blk') else target
    stop_by_blk = {}
    for i in stops:
        stop_by_blk.setdefault(i.blk, []).append(i)

    def order(b):
        return {j.id: n for n, j in enumerate(fn.blocks[b].ins)}

    seen = set()
    work = [start]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        st = stop_by_blk.get(b)
        if b == tb:
            if not st:
                return True
            if hasattr(target, 'blk'):
                o = order(b)
                if not any(o[x.id] < o[target.id] for x in st):
                    return True
        if st:
            # passing through requires executing the stop; an invoke that unwinds still started it
            continue
        for s in fn.blocks[b].succs:
            if dead_edge(sym, b, s) or skip_edge and skip_edge(b, s):
                continue
            work.append(s)
    return False


def dead_edge(sym, b, s):
    """branch on a condition the analysis resolved to a constant"""
    t = sym.fn.blocks[b].term
    if t.op == 'br' and len(t.get('succ')) == 2 and t.get('succ')[0] != t.get('succ')[1]:
        c = sym.asbool(sym.val(t.ops[0]))
        if c.op == 'true':
            return s == t.get('succ')[1]
        if c.op == 'false':
            return s == t.get('succ')[0]
    return False


def slot_of(term):
    """(map, key) when term is the value stored in a map slot"""
    if term.op == 'ld' and ptr_parts(term.args[0])[0].op == 'node':
        n = ptr_parts(term.args[0])[0]
        return n.args[0], n.args[1]
    return None


def same_key(a, b):
    """two key terms denote the same name (iteration keys may be read through the element)"""
    def norm(k):
        if k.op == 'itkey':
            return k
        if key_from_map(k):
            return ptr_parts(k.args[0])[0].args[1]
        return k
    return norm(a) is norm(b)


def contents_at(sym, b, p):
    """content of object p when block b ends"""
    return sym.peek(sym.outstate[b], p, 'obj')


def cases(sym, t, facts, depth=0):
    """split a merged content term into (term, extra facts) alternatives"""
    if depth > 8:
        return [(t, facts)]
    if t.op == 'sel':
        return cases(sym, t.args[1], facts + [t.args[0]], depth + 1) + \
            cases(sym, t.args[2], facts + [_neg(t.args[0])], depth + 1)
    if t.op == 'phi' and t in sym.minc and 'entry' not in sym.minc[t]:
        out = []
        for p, v in sym.minc[t].items():
            ef = list(sym.facts(p)) + facts
            out += cases(sym, v, ef, depth + 1)
        return out
    return [(t, facts)]


def _neg(c):
    from .sym import neg_
    return neg_(c)


class _Facts:
    def __init__(self, f):
        self.f = f

    def facts(self, b):
        return self.f


class PresenceF(Presence):
    """presence knowledge from an explicit list of facts"""

    def __init__(self, facts):
        self.sym = _Facts(facts)


def may_raise(prog, ctx):
    """repository functions that can raise something other than memory exhaustion"""
    raisers = {'__cxa_throw', '__cxa_rethrow', 'std::stod', 'std::stoi', 'std::stol', 'std::stof'}
    idx = {f['name']: f for f in prog.index.values()} if isinstance(prog.index, dict) else {f['name']: f for f in prog.index}
    res = {}

    def go(n, stack):
        if n in res:
            return res[n]
        if n in stack:
            return False
        f = idx.get(n)
        if f is None:
            return False
        if not f.get('repo'):
            s = names.parse(f['dem'])[0] if f.get('dem') else n
            return n in raisers or s in raisers or s.endswith('::at')
        r = bool(f.get('indirect'))
        for c in f.get('calls', []) + f.get('refs', []):
            if go(c, stack | {n}):
                r = True
                break
        res[n] = r
        return r
    return lambda name: go(name, frozenset())


def ptr_add_(p, off):
    from .terms import ptr_add, poly
    return ptr_add(p, poly(off))


def state_before(s, i):
    """memory state just before instruction i"""
    st = s.instate[i.blk].copy()
    fin, s.final = s.final, False
    keep = dict(s.vals)
    for j in s.fn.blocks[i.blk].ins:
        if j.id == i.id:
            break
        if j.op == 'phi':
            continue
        s.step(j, st)
    s.vals = keep
    s.final = fin
    return st


def content_before(s, i, p, ty='obj'):
    """content of the object at p just before instruction i"""
    return s.peek(state_before(s, i), p, ty)
