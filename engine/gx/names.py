"""Parsing of demangled C++ names."""
import re
import functools


def _match_angle(s, i):
    """s[i] == '<': index just after the matching '>' (operators excluded)."""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>':
            if i and s[i - 1] == '-':
                i += 1
                continue
            depth -= 1
            if depth == 0:
                return i + 1
        elif c == '(':
            i = _match_paren(s, i)
            continue
        i += 1
    return n


def _match_paren(s, i):
    depth = 0
    n = len(s)
    while i < n:
        if s[i] == '(':
            depth += 1
        elif s[i] == ')':
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    return n


_OPS = ['operator()', 'operator[]', 'operator->*', 'operator->', 'operator<<=', 'operator>>=',
        'operator<=>', 'operator<<', 'operator>>', 'operator<=', 'operator>=', 'operator==',
        'operator!=', 'operator&&', 'operator||', 'operator++', 'operator--', 'operator+=',
        'operator-=', 'operator*=', 'operator/=', 'operator%=', 'operator^=', 'operator&=',
        'operator|=', 'operator+', 'operator-', 'operator*', 'operator/', 'operator%', 'operator^',
        'operator&', 'operator|', 'operator~', 'operator!', 'operator=', 'operator<', 'operator>',
        'operator,', 'operator new[]', 'operator new', 'operator delete[]', 'operator delete']


@functools.lru_cache(maxsize=None)
def parse(dem):
    """-> (qualified name without template arguments, [param types], is_const_method, return type or None,
    [template args of the function], [template args of the enclosing class])"""
    if '[abi:' in dem:
        dem = re.sub(r'\[abi:[^]]*\]', '', dem)
    out = []
    i, n = 0, len(dem)
    targs = []
    ret = None
    seg = []
    params = None
    is_const = False
    cls_targs = []
    last_targs = []
    while i < n:
        c = dem[i]
        if dem.startswith('operator', i) and (i == 0 or not (dem[i - 1].isalnum() or dem[i - 1] == '_')):
            for o in _OPS:
                if dem.startswith(o, i):
                    # 'operator<' might be a template of 'operator' only for conversion; accept
                    seg.append(o)
                    i += len(o)
                    break
            else:
                # conversion operator: take everything up to '('
                j = i
                while j < n and dem[j] != '(':
                    if dem[j] == '<':
                        j = _match_angle(dem, j)
                    else:
                        j += 1
                seg.append(dem[i:j])
                i = j
            if i < n and dem[i] == ' ' and i + 1 < n and dem[i + 1] == '<':
                i += 1
            continue
        if c == '<':
            j = _match_angle(dem, i)
            cls_targs, last_targs = last_targs, split_args(dem[i + 1:j - 1])
            i = j
            continue
        if c == '(':
            # parameter list, or part of a name such as (anonymous namespace) / {lambda(...)}
            if dem.startswith('(anonymous namespace)', i):
                seg.append('(anonymous namespace)')
                i += len('(anonymous namespace)')
                continue
            j = _match_paren(dem, i)
            if j < n and dem.startswith('::', j):
                # enclosing function of a local entity: keep the name, drop its parameters
                i = j
                continue
            if dem[i:j] == '(.*)':
                i = j
                continue
            # function pointer return types are not parsed
            params = split_args(dem[i + 1:j - 1])
            tail = dem[j:]
            if tail.startswith(' const') and '::' in tail:
                # enclosing const function of a local entity
                k = tail.find('::')
                params = None
                i = j + k
                continue
            is_const = tail.strip().startswith('const')
            i = n
            continue
        if c == '{':
            j = i
            d = 0
            while j < n:
                if dem[j] == '{':
                    d += 1
                elif dem[j] == '}':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            seg.append(dem[i:j + 1])
            i = j + 1
            continue
        if c == ' ' and not ''.join(seg).endswith('operator'):
            ret = ''.join(seg)
            seg = []
            last_targs = []
            cls_targs = []
            i += 1
            continue
        seg.append(c)
        i += 1
    name = ''.join(seg)
    name = name.replace('std::__cxx11::', 'std::').lstrip('&*')
    return name, (params or []), is_const, ret, last_targs, cls_targs


def split_args(s):
    res, depth, cur = [], 0, []
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            depth += 1
        elif c in '>)]}':
            if not (c == '>' and i and s[i - 1] == '-'):
                depth -= 1
        if c == ',' and depth == 0:
            res.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    t = ''.join(cur).strip()
    if t:
        res.append(t)
    return res


def short(dem):
    return parse(dem)[0]


def const_params(dem):
    """For each source parameter: True if the callee cannot modify what it refers to."""
    res = []
    for p in parse(dem)[1]:
        if p.endswith('&&'):
            res.append(False)
        elif p.endswith('&') or p.endswith('*'):
            base = p.rstrip('&* ')
            res.append(base.endswith('const'))
        else:
            res.append(None)  # by value
    return res
