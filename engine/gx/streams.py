"""Output streams in a flattened function: which object a call works on and what it does to it."""
from .lib import *
from . import api

OPENERS = ('std::basic_ofstream::basic_ofstream', 'std::basic_fstream::basic_fstream', 'std::basic_ofstream::open',
           'std::basic_fstream::open')
GOOD_TRUE = ('operator bool', 'good')
GOOD_FALSE = ('operator!', 'fail')
QUIET = ('is_open', 'bad', 'eof', 'rdstate', 'precision', 'width', 'fill', 'setf', 'unsetf', 'flags', 'exceptions', 'rdbuf', 'imbue',
         'tellp', 'getloc', 'tie', 'operator bool', 'good', 'operator!', 'fail')


def last(i):
    return i.short.split('::')[-1] if i.short else ''


def is_opener(i):
    return bool(i.is_call and i.short in OPENERS and len(i.ops) > 1)


class Streams:
    def __init__(self, s):
        self.s = s
        self.by_val = {}
        for i in s.fn.instrs():
            if i.is_call and i.id in s.vals:
                v = s.vals[i.id]
                if v.op == 'ret':
                    self.by_val[v] = i
        self.files = {}
        for i in s.fn.instrs():
            if i.is_call and i.short in OPENERS:
                self.files[root_of(s.info[i.id]['args'][0])] = i
        self.openers = [i for i in s.fn.instrs() if is_opener(i) and self.opens(i)]

    def opens(self, i):
        return any('char const*' in t or 'basic_string' in t or t.startswith('std::string')
                   for t in self.s.info[i.id]['call'].ptypes)

    def stream_of(self, t, depth=0):
        """the object behind a reference, following the value handed on by chained output calls"""
        r = root_of(t)
        if r.op == 'ret' and r in self.by_val and depth < 400:
            a = self.s.info[self.by_val[r].id]['args']
            if a:
                return self.stream_of(a[0], depth + 1)
        return r

    def target(self, i):
        a = self.s.info[i.id].get('args') or []
        return self.stream_of(a[0]) if a else None
