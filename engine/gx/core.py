"""Shared context of a check run: programs, analyses, obligations, violations, evidence."""
import json
import os
import re
import time

from . import build, ir, names
from .sym import Sym
from .prove import Prover
from .terms import subterms


class AnalysisBroken(Exception):
    """the analysis lost its anchors: neither 'held' nor 'broken' can be answered"""


FULL_PLAN = ['rootrepo'] + ['inline\t' + x for x in build.INLINE_STD]


class Ctx:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.viol = []
        self.oblig = 0
        self.disch = 0
        self.samples = []
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self._progs = {}
        self._syms = {}

    # ---------------------------------------------------------------- programs
    def prog(self, plan=None, part='lib'):
        plan = tuple(plan or FULL_PLAN)
        k = (plan, part)
        if k not in self._progs:
            self._progs[k] = ir.Program(build.dump(list(plan), part))
        return self._progs[k]

    def full(self):
        return self.prog()

    def sym(self, fn, prog=None, **opts):
        k = id(fn)
        if k not in self._syms:
            s = Sym(fn, prog, opts)
            if not s.converged:
                raise AnalysisBroken('value numbering of %s did not converge' % fn.dem)
            self._syms[k] = s
        return self._syms[k]

    def one(self, prog, short, nparams=None, pred=None):
        """the unique flattened function of that qualified name (anchor)"""
        fs = [f for f in prog.find(short) if f.file.startswith(build.REPO)]
        if nparams is not None:
            fs = [f for f in fs if len(f.params) == nparams]
        if pred:
            fs = [f for f in fs if pred(f)]
        if len(fs) == 0:
            raise AnalysisBroken('anchor %s not found in the analysed program' % short)
        if len(fs) > 1:
            # complete and base object variants of constructors/destructors are the same source function
            ls = {(f.file, f.line) for f in fs}
            if len(ls) > 1:
                raise AnalysisBroken('anchor %s is ambiguous (%d definitions)' % (short, len(fs)))
        return fs[0]

    # -------------------------------------------------------------- obligations
    def ok(self, what, n=1):
        self.oblig += n
        self.disch += n
        if len(self.samples) < 40:
            self.samples.append(what)

    def bad(self, key, where, msg):
        """an obligation that does not hold.  key identifies the construct without line numbers"""
        self.oblig += 1
        if any(v['key'] == key for v in self.viol):
            return
        self.viol.append({'key': key, 'where': where, 'message': msg})

    def expect(self, cond, key, where, msg, okmsg=None):
        if cond:
            self.ok(okmsg or (key + ' @ ' + str(where)))
        else:
            self.bad(key, where, msg)
        return cond

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def require(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def load_known():
    p = os.path.join(build.VERIF, 'known_findings.txt')
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)', l)
            if m:
                res.append(m.groups())
    return res
