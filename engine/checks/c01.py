"""Every access to a dataset by name is dominated by a successful lookup of that very name.

Each public operation is flattened down to the calls on dataset objects.  For
every parameter that names a dataset (frozen table, cross-checked against the
program) it is shown that (1) every normal return is reached only through a
successful lookup of that name, (2) no instruction with an effect outside the
activation precedes that lookup, (3) what is raised when the lookup fails is the
library's exception, and (4) every dataset slot that is read or written has a
key known to be present, so no operation registers a name.
"""
import re

from gx import api, names
from gx.api import Presence, Maps, content_before, effects, throw_type, GENEX_EXC
from gx.lib import plan
from gx.terms import mk, ptr_parts, subterms

RULE = 'every use of a dataset is dominated by a successful lookup of the same name; nothing happens before it'

RAISERS = ('std::map::at', 'std::vector::at', 'std::basic_string::at', 'std::basic_string::substr', 'std::stoi',
           'std::stod', 'std::stol', 'std::basic_string::erase', 'std::basic_string::replace', 'std::basic_string::compare')


def name_content(sym, f, pos):
    """term of the text of parameter number pos"""
    base = 1 + (1 if f.sret else 0)
    p = sym.argT[base + pos]
    return mk('ld', p, 'obj', ())


def looks_only(ctx, c, seen={}):
    """the member function called leaves everything but its result as it was"""
    if not c.is_const:
        return False
    if c.short not in seen:
        p = ctx.prog(plan(['^%s\\(' % re.escape(c.short)]))
        fs = p.find(c.short)
        ok = bool(fs)
        for f in fs:
            s = ctx.sym(f, p)
            out = s.argByName.get('sret')
            for i, what in effects(s):
                to = s.info[i.id]['ptr'] if i.op == 'store' else None
                if not (what == 'allocates' or (to is not None and out is not None and ptr_parts(to)[0] is out)):
                    ok = False
        seen[c.short] = ok
    return seen[c.short]


def run(ctx):
    prog = api.program(ctx)
    used = 0
    for m, poss in sorted(api.PUBLIC.items()):
        f = api.method(ctx, m)
        ctx.count('operations')
        s = api.sym(ctx, f)
        maps = Maps(s)
        pr = Presence(s)
        for pos in poss:
            ctx.require('basic_string' in f.params[pos], '%s: parameter %d is no longer a name' % (f.short, pos))
        keys = [name_content(s, f, p) for p in poss]
        # (4) slots of the dataset map
        for i in f.calls():
            if api.is_ds_map(i) and i.short in ('std::map::operator[]', 'std::map::at', 'std::map::insert',
                                                'std::map::emplace', 'std::map::erase', 'std::map::insert_or_assign'):
                ctx.count('slot accesses')
                used += 1
                info = s.info[i.id]
                if m == 'loadDataset':
                    continue
                key = None
                if info['res'] is not None and i.short in ('std::map::operator[]', 'std::map::at'):
                    key = ptr_parts(info['res'])[0].args[1]
                elif i.short == 'std::map::erase':
                    a = info['args'][-1]
                    if a.op in ('find',):
                        key = a.args[2]
                    elif a.op in ('mbegin', 'next', 'phi'):
                        ctx.ok('%s erases an element reached by iteration' % i.where)
                        continue
                    else:
                        st = s.outstate[i.blk]
                        key = s.peek(st, a, 'obj')
                if key is None:
                    ctx.bad('%s:%s:unkeyed' % (m, i.short), i.where, 'the dataset map is changed under a name that was not looked up')
                    continue
                cont = content_before(s, i, maps.ds)
                ctx.expect(api.key_from_map(key) or pr.present(i.blk, cont, key) or pr.infeasible(i.blk),
                           '%s:%s:%s' % (m, i.short, key), i.where,
                           'the dataset of name "%s" is used although its presence was not established on every path' % key)
            elif i.is_call and i.short == 'std::_Rb_tree_iterator::operator->' or i.short == 'std::_Rb_tree_iterator::operator*' or \
                    i.short in ('std::_Rb_tree_const_iterator::operator->', 'std::_Rb_tree_const_iterator::operator*'):
                r = s.info[i.id]['res']
                if r.op == 'node' and r.args[0] is maps.ds and r.args[1].op != 'itkey':
                    key = r.args[1]
                    ctx.count('slot accesses')
                    cont = content_before(s, i, maps.ds)
                    ctx.expect(pr.present(i.blk, cont, key), '%s:iterator:%s' % (m, key), i.where,
                               'a lookup result is used without knowing that the name was found')
        if not poss:
            continue
        ctx.require(maps.ds is not None, '%s no longer consults the map of loaded datasets' % m)
        cont0 = mk('ld', maps.ds, 'obj', ())
        # (1) normal returns
        for b in f.rpo:
            t = f.blocks[b].term
            if t.op != 'ret':
                continue
            for pos, k in zip(poss, keys):
                ctx.expect(pr.present(b, cont0, k), '%s:return:%d' % (m, pos), t.where,
                           '%s can return normally although no dataset named by argument %d is loaded' % (m, pos + 1),
                           '%s returns only if argument %d names a loaded dataset' % (m, pos + 1))
        # (2) effects before the checks
        for i, what in effects(s):
            if i.op != 'store' and i.short and i.short.startswith('std::map::') and api.is_ds_map(i):
                continue  # judged above
            ctx.count('effects')
            miss = [pos for pos, k in zip(poss, keys) if not pr.present(i.blk, cont0, k)]
            if miss and i.is_call and i.get('repo') and i.dem and looks_only(ctx, s.info[i.id]['call']):
                miss = []
            ctx.expect(not miss, '%s:effect:%s' % (m, i.short or i.op), i.where,
                       '%s before it is established that argument %s names a loaded dataset' % (
                           what, ', '.join(str(x + 1) for x in miss)))
        # (3) exceptions raised while a name is unknown
        for i in f.calls():
            if i.short == '__cxa_throw' or i.short in RAISERS:
                miss = [pos for pos, k in zip(poss, keys) if not pr.present(i.blk, cont0, k)]
                if not miss:
                    continue
                good = i.short == '__cxa_throw' and throw_type(s, i) == GENEX_EXC
                ctx.expect(good, '%s:raise:%s' % (m, i.short), i.where,
                           'an unknown name in argument %d is not reported by the library exception' % (miss[0] + 1))
        # dataset objects used are those of the named slots
        for i in f.calls():
            if i.get('repo') and i.dem:
                c = s.info[i.id].get('call')
                if c is None or c.this is None or not (c.short.startswith(api.DS + '::') or c.short.startswith(api.BASE + '::')):
                    continue
                if api.local(s, c.this):
                    continue
                ctx.count('dataset calls')
                r, off = ptr_parts(c.this)
                slot = ptr_parts(c.this.args[0])[0] if c.this.op == 'ld' else None
                good = slot is not None and slot.op == 'node' and slot.args[0] is maps.ds and slot.args[1] in keys
                ctx.expect(good, '%s:object:%s' % (m, c.short), i.where,
                           '%s is called on an object that is not the dataset registered under a name given' % c.short)
    ctx.require(used >= 20, 'only %d uses of the dataset map found' % used)

