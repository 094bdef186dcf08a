import json
from fractions import Fraction
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import Store, Term, Atom, show
from interp import Interp, Agg, Enum, Ref, MRef, Seq, B, State, Unsupported
from dsl import M, V, C
from sgp4spec import Theory, R


class Ctx:
    """One analysis context: a fresh store, interpreter and reference theory."""

    def __init__(self, dump, limit=40, seed=1):
        self.s = Store(seed)
        self.I = Interp(dump, self.s, limit)
        self.m = M(self.s)
        self.th = Theory(self.m)
        # constants the compiler folds from others: rounding in any order gives one of the neighbours of the exact value
        a, b = Fraction('6378.137'), Fraction('6356.7523142')
        f = (a - b) / a
        e2 = 2 * f - f * f
        ex = [(float(q), self.s.const(q), 1e-12) for q in (f, e2, 1 - f, 1 - e2, e2 / (1 - e2))]
        ex += [(float(v.t.num), v.t, 1e-14) for v in (self.th.xke, self.th.tumin, self.th.j3oj2)]
        self.s.aliases = ex

    def fn(self, name):
        n = self.I.find(name)
        if n is None:
            raise Missing('public function %s not found' % name)
        return n

    def adt(self, path):
        for i, t in enumerate(self.I.types):
            if t and t.get('k') == 'adt' and (t['path'] == path or t['path'].endswith('::' + path)):
                return i
        raise Missing('type %s not found' % path)

    def fields(self, tyi):
        return [f[0] for f in self.I.types[tyi]['variants'][0]['fields']]

    def get(self, v, name):
        """Field of a struct value by name."""
        fs = self.fields(v.ty)
        if name not in fs:
            raise Missing('field %s of %s not found' % (name, self.I.types[v.ty]['path']))
        return v.f[fs.index(name)]

    def put(self, v, **kw):
        fs = self.fields(v.ty)
        f = list(v.f)
        for k, x in kw.items():
            if k not in fs:
                raise Missing('field %s of %s not found' % (k, self.I.types[v.ty]['path']))
            f[fs.index(k)] = x
        return Agg(v.ty, f)

    def variant(self, tyi, name):
        for i, v in enumerate(self.I.types[tyi]['variants']):
            if v['name'] == name:
                return i
        raise Missing('variant %s not found' % name)

    def enum(self, path, name):
        ty = self.adt(path)
        k = self.variant(ty, name)
        return Enum(ty, self.s.const(k, 'i'), {k: ()})

    def i(self, n):
        return self.s.const(n, 'i')


class Missing(Exception):
    pass
