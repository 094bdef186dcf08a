"""Obligations: comparison of what the program computes with what the reference says, and their report."""
import time
from common import Ctx, Missing
from terms import Term, Atom, show
from interp import Agg, Enum, Ref, MRef, Seq, B, Box, State, Unsupported


def cut(x, n=240):
    x = str(x)
    return x if len(x) <= n else x[:n] + '...'


class Enough(Exception):
    """Enough obligations are broken to stop."""


class Check:
    def __init__(self, dump, tier='quick', seed=1):
        self.dump = dump
        self.tier = tier
        self.seed = seed
        self.deep = tier == 'thorough'
        self.obs = []            # (name, ok, where, detail)
        self.ctxs = []
        self.samples = []
        self.notes = {}
        self.prefix = ''
        self.known = ()          # obligations recorded as findings
        self.bad = 0
        self.since = None        # when the first failure was found

    # ------------------------------------------------------------ contexts
    def ctx(self, limit=40):
        X = Ctx(self.dump, limit, self.seed)
        self.ctxs.append(X)
        if len(self.ctxs) > 6:        # keep memory bounded: only the statistics of old contexts are kept
            o = self.ctxs.pop(0)
            self.fold(o)
        return X

    def fold(self, X):
        n = self.notes
        n.setdefault('fns', set()).update(X.I.fns)
        n['calls'] = n.get('calls', 0) + X.I.calls
        n['stmts'] = n.get('stmts', 0) + X.I.stmts
        n['terms'] = n.get('terms', 0) + len(X.s.terms)
        n['atoms'] = n.get('atoms', 0) + len(X.s.atoms)
        n['nodes'] = max(n.get('nodes', 0), len(X.s.nodes))
        n['contexts'] = n.get('contexts', 0) + 1
        n.setdefault('opaque', set()).update(X.I.unknown)

    # ------------------------------------------------------------ obligations
    def ob(self, name, ok, where='', detail=''):
        self.obs.append((self.prefix + name, bool(ok), where, detail))
        if not ok and self.prefix + name not in self.known:
            self.bad += 1
            self.since = self.since or time.time()
            if self.bad >= 16:
                raise Enough()
        if self.since and time.time() - self.since > 60:      # the answer is known; more of the same is not needed
            raise Enough()
        return bool(ok)

    @property
    def failed(self):
        return [o for o in self.obs if not o[1]]

    def where(self, X, got, want):
        """Program locations that build the innermost part of got which want does not contain."""
        s = X.s
        if not isinstance(got, Term):
            return ''
        known = set(s.nodeset(want)) if isinstance(want, Term) else set()
        out = []
        for t in s.frontier(got, known):
            if t.prov and t.prov[0] != '?':
                w = '%s (%s)' % (t.prov[0], t.prov[1])
                if w not in out:
                    out.append(w)
        if not out:
            for i, t in sorted(s.nodeset(got).items(), reverse=True):
                if t.prov and i not in known:
                    out.append('%s (%s)' % (t.prov[0], t.prov[1]))
                    break
        return '; '.join(out[:4])

    def path(self, p):
        out = []
        for q in p[-6:]:
            if isinstance(q, tuple):
                out.append(('' if q[1] else 'not ') + cut(q[0], 90))
            else:
                out.append(str(q))
        return ' and '.join(out) or 'always'

    def cond(self, X, name, got, want, care=1, budget=3000):
        """Two conditions (BDDs) agree on care."""
        s = X.s
        d = s.bsame(got, want, care, budget)
        if d is None:
            return self.ob(name, True)
        w = []
        for q in d[-8:]:
            if isinstance(q, tuple) and q[0].base.prov:
                x = '%s (%s)' % q[0].base.prov
                if x not in w:
                    w.append(x)
        return self.ob(name, False, '; '.join(w[:3]), 'differs when ' + self.path(d))

    def eq(self, X, name, got, want, care=1, budget=3000):
        """Structural comparison of two abstract values on care; one obligation per leaf."""
        s = X.s
        if got is want or care == 0:
            return self.ob(name, True)
        if isinstance(got, (Ref, Box)):
            return self.eq(X, name, got.v, want.v if isinstance(want, (Ref, Box)) else want, care, budget)
        if isinstance(want, (Ref, Box)):
            return self.eq(X, name, got, want.v, care, budget)
        if isinstance(got, Term) and isinstance(want, Term):
            if got.sort != want.sort and {got.sort, want.sort} == {'i', 'f'}:
                got = s.i2f(got) if got.sort == 'i' else got
                want = s.i2f(want) if want.sort == 'i' else want
            d = s.same(got, want, care, budget)
            if d is None:
                return self.ob(name, True)
            p, a, b = d
            return self.ob(name, False, self.where(X, a, b),
                           'computed %s; expected %s; when %s' % (cut(show(a, 5)), cut(show(b, 5)), self.path(p)))
        if isinstance(got, B) and isinstance(want, B):
            return self.cond(X, name, got.n, want.n, care, budget)
        if isinstance(got, Agg) and isinstance(want, Agg) and len(got.f) == len(want.f):
            names = None
            if got.ty is not None and X.I.types[got.ty].get('k') == 'adt':
                names = X.fields(got.ty)
            ok = True
            for i, (x, y) in enumerate(zip(got.f, want.f)):
                ok &= self.eq(X, '%s.%s' % (name, names[i] if names and i < len(names) else i), x, y, care, budget)
            return ok
        if isinstance(got, Enum) and isinstance(want, Enum):
            ok = self.eq(X, name + '.variant', got.tag, want.tag, care, budget)
            vs = X.I.types[got.ty]['variants'] if got.ty is not None else None
            for k in sorted(set(got.p) | set(want.p)):
                c = s.band(care, s.eq(want.tag, X.i(k)))
                if c == 0 or not ok:
                    continue
                n = vs[k]['name'] if vs else str(k)
                if k not in got.p or k not in want.p:
                    if s.bsame(c, 0, 1) is not None:
                        ok = self.ob('%s.%s' % (name, n), False, '', 'no value for this case')
                    continue
                for i, (x, y) in enumerate(zip(got.p[k], want.p[k])):
                    ok &= self.eq(X, '%s.%s%s' % (name, n, '.%d' % i if i else ''), x, y, c, budget)
            return ok
        if isinstance(got, Seq) and isinstance(want, Seq):
            gi = [(s.constrain(g, care), v) for g, v in got.items]
            wi = [(s.constrain(g, care), v) for g, v in want.items]
            gi = [x for x in gi if s.band(x[0], care) != 0]
            wi = [x for x in wi if s.band(x[0], care) != 0]
            if len(gi) != len(wi) or (got.base is not want.base):
                return self.ob(name, False, '', 'sequence of %d possible elements, expected %d' % (len(gi), len(wi)))
            ok = True
            for i, ((g1, v1), (g2, v2)) in enumerate(zip(gi, wi)):
                ok &= self.cond(X, '%s[%d] present' % (name, i), g1, g2, care, budget)
                ok &= self.eq(X, '%s[%d]' % (name, i), v1, v2, s.band(care, g2), budget)
            return ok
        if isinstance(got, Term) and got.op == 'var' and type(want) is not Term:
            pass
        return self.ob(name, False, '', 'computed %s, expected %s' % (type(got).__name__, type(want).__name__))

    def feasible(self, X, pc, care=1):
        return X.s.bsame(X.s.band(pc, care), 0, 1, 2000) is not None

    def returns(self, X, ns, pre=1, name='returns'):
        """The call returns on every input of the precondition."""
        if ns is None:
            return self.ob(name, False, '', 'never returns')
        d = X.s.bsame(ns.pc, pre, pre, 2000)
        w = ''
        if d is not None:
            for p in X.I.panics:
                if self.feasible(X, p[0], pre):
                    w = '%s (%s): %s' % (p[2], p[3], p[1])
                    break
            else:
                for c in X.I.cuts:
                    w = 'loop in %s' % c[1]
                    break
        return self.ob(name, d is None, w, '' if d is None else 'does not return when ' + self.path(d))

    def nopanic(self, X, pre=1, name='', allow=lambda p: False):
        """Every panic site met by the analysis is unreachable."""
        for p in X.I.panics:
            if allow(p):
                continue
            bad = self.feasible(X, p[0], pre)
            self.ob('%sno panic: %s in %s' % (name, p[1], p[2]), not bad, '%s (%s)' % (p[2], p[3]),
                    '%s: %s can fail' % (p[1], cut(p[4], 100)) if bad else '')
        for f, n in sorted(X.I.unknown.items()):
            self.ob('%sno unknown callee' % name, False, f, 'call of %s, whose effect is not known' % f)

    def noloop(self, X, pre=1, name=''):
        for c in X.I.cuts:
            bad = self.feasible(X, c[0], pre)
            self.ob('%sloop in %s ends' % (name, c[1]), not bad, c[1],
                    'still iterating after %d rounds' % X.I.limit if bad else '')


class timed:
    def __init__(self):
        self.t = time.time()

    def __call__(self):
        return time.time() - self.t
