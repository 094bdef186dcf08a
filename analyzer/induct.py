"""The resonance integrator by induction on its steps.

The integrator makes floor(|t| / 720) steps, as many as the time asks for.  The loop that makes them is found by running
it for the first few steps and recognising, at its head, the reference state after 1, 2, 3 and 4 steps in some of the program's places.  Every
place the loop changes gets a closed form over the number of steps so far (a quantity of the reference at that step, a
value that grows by a constant, or none); then one step is interpreted from these forms with an arbitrary number
of steps j and an arbitrary state, and the forms must hold again for j + 1, exactly when the time is j + 1 steps
or more away.  What leaves the loop is what the program computes for times between j and j + 1 steps."""
from dsl import C
from terms import Term
from interp import Agg, Enum, Ref, MRef, Seq, B, Box, Poison, State, Unsupported, Fn, It

BASE = 4               # steps made before the number of steps becomes arbitrary
MOST = 10 ** 6         # steps: a thousand years and more either side of epoch
QS = ('xli', 'xni', 'xldot', 'xndt', 'xnddt', 'at')


class NoFit(Exception):
    """The loop has no closed form of the kind looked for; says nothing about the program."""


class Steps:
    def __init__(self, X, S, irez, sign, t, name=''):
        s, m = X.s, X.m
        self.X, self.S, self.irez, self.sign, self.t = X, S, irez, sign, t
        self.n = s.var('steps' + name, 'i', (BASE + 1, MOST))
        self.j = m.v(s.i2f(self.n))
        self.seq = [(S.xlamo, S.no, m.c(0))]
        self.gen = [(m.v(s.var('longitude*' + name)), m.v(s.var('motion*' + name)), self.at(self.j - 1))]
        self.memo = {}
        self.hist = {}
        self.found = {}
        self.bad = []          # closed forms that do not survive a step
        self.ban = set()
        self.shift = {}
        self.done = set()
        self.forms = set()
        self.pre = self.beyond(m.c(BASE)) & self.within(m.c(MOST))

    def at(self, k):
        return k * (720 * self.sign)

    def beyond(self, k):
        """The time is at least k steps away."""
        return self.t >= self.at(k) if self.sign > 0 else self.t <= self.at(k)

    def within(self, k):
        """The time is less than k + 1 steps away."""
        return self.t < self.at(k + 1) if self.sign > 0 else self.t > self.at(k + 1)

    def extra(self, n):
        """Only inputs for which n holds."""
        self.pre = self.pre & C(self.X.s, n)

    @property
    def reach(self):
        """Times of j steps from epoch and more."""
        return (self.pre & self.beyond(self.j)).n

    @property
    def care(self):
        """Times between j and j + 1 steps from epoch."""
        return (self.pre & self.beyond(self.j) & self.within(self.j)).n

    def rates(self, st):
        return self.X.th.resonance_rates(self.S, self.irez, *st)

    def step(self, st):
        xli, xni, at = st
        d = 720 * self.sign
        xndt, xldot, xnddt = self.rates(st)
        return (xli + xldot * d + xndt * 259200, xni + xndt * d + xnddt * 259200, at + d)

    def state(self, k):
        while len(self.seq) <= k:
            self.seq.append(self.step(self.seq[-1]))
        return self.seq[k]

    def generic(self, o):
        """The state after j + o steps."""
        while len(self.gen) <= o + 1:
            self.gen.append(self.step(self.gen[-1]))
        return self.gen[o + 1]

    def quantity(self, q, k=None, o=None):
        key = (q, k, o)
        r = self.memo.get(key)
        if r is None:
            st = self.state(k) if o is None else self.generic(o)
            if q in ('xli', 'xni', 'at'):
                r = st[('xli', 'xni', 'at').index(q)].t
            else:
                xndt, xldot, xnddt = self.rates(st)
                r = dict(xndt=xndt, xldot=xldot, xnddt=xnddt)[q].t
            self.memo[key] = r
        return r

    # ---------------------------------------------------------------- leaves of a state
    def walk(self, vs, path, f):
        """Rebuild the value whose history is vs, with f at the leaves."""
        v = vs[-1]
        if all(x is v for x in vs):
            return v
        ty = type(v)
        if any(type(x) is not ty for x in vs):
            return f(path, vs)
        if ty is Agg and all(len(x.f) == len(v.f) for x in vs):
            return Agg(v.ty, [self.walk([x.f[i] for x in vs], path + (i,), f) for i in range(len(v.f))])
        if ty is Enum and all(set(x.p) == set(v.p) and all(len(x.p[k]) == len(v.p[k]) for k in v.p) for x in vs):
            return Enum(v.ty, self.walk([x.tag for x in vs], path + ('t',), f),
                        {k: tuple(self.walk([x.p[k][i] for x in vs], path + (k, i), f) for i in range(len(v.p[k]))) for k in v.p})
        if ty is Ref or ty is Box:
            return ty(self.walk([x.v for x in vs], path + ('*',), f))
        if ty is MRef and all(x.cell == v.cell and x.proj == v.proj for x in vs):
            return v
        if ty is It and all(x.kind == v.kind and isinstance(x.d, tuple) and len(x.d) == len(v.d) for x in vs):
            return It(v.kind, tuple(self.walk([x.d[i] for x in vs], path + (i,), f) for i in range(len(v.d))))
        return f(path, vs)

    def eqv(self, a, b, care):
        """Equality of two leaves on care."""
        s = self.X.s
        if a is b or a == b:
            return True
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == b.sort:
            return s.same(a, b, care, 200) is None
        if isinstance(a, B) and isinstance(b, B):
            return s.bsame(a.n, b.n, care, 200) is None
        return False

    def fit(self, vs, pcs):
        """Closed form of a leaf from its values after 1..BASE steps: a function of the generic offset, or None."""
        s, m = self.X.s, self.X.m
        v = vs[-1]
        n = len(vs)
        if isinstance(v, Poison):
            return None
        if all(self.equal(x, v, pc) for x, pc in zip(vs, pcs)):
            return ('same', lambda o: v)
        if not isinstance(v, Term) or any(not isinstance(x, Term) or x.sort != v.sort for x in vs):
            return None
        if v.sort == 'f':
            for q in QS:
                for d in (0, -1, 1):
                    if all(self.eqv(x, self.quantity(q, k=BASE - n + 1 + i + d), pc) for i, (x, pc) in enumerate(zip(vs, pcs))):
                        return (q, lambda o, q=q, d=d: self.quantity(q, o=o + d))
        if v.sort in 'fi':
            ds = [s.sub(y, x) for x, y in zip(vs, vs[1:])]
            if all(self.eqv(x, ds[-1], pc) for x, pc in zip(ds, pcs[1:])):
                d = ds[-1]
                k = self.j.t if v.sort == 'f' else self.n
                return ('affine', lambda o: s.add(v, s.mul(d, s.add(k, s.const(o - BASE, v.sort)))))
        return None

    # ---------------------------------------------------------------- the loop head
    def hook(self, I, bi, b, visit, cur, fid):
        key = (fid, b, bi.name)
        if key in self.found:
            return self.again(I, key, cur)
        if visit > BASE + 1:
            return None
        h = self.hist.setdefault(key, [])
        if visit == 1:
            h[:] = []
        h.append(cur)
        if visit <= BASE or len(h) != BASE + 1:
            return None
        if not self.candidate(cur, h[1]):
            return None
        return self.generalise(key, cur, h[1:])

    def candidate(self, cur, first):
        ids = {self.quantity(q, k=BASE + d).id for q in ('xli', 'xni') for d in (0, -1, 1)}
        hit = []

        def leaf(path, vs):
            if isinstance(vs[-1], Term) and vs[-1].id in ids:
                hit.append(path)
            return vs[-1]
        for c, v in cur.c.items():
            w = first.c.get(c)
            if w is not None and w is not v:
                self.walk([w, v], (c,), leaf)
        return bool(hit)

    def generalise(self, key, cur, hist):
        s, m = self.X.s, self.X.m
        forms = {}
        pcs = [x.pc for x in hist]

        def leaf(path, vs):
            if path in self.ban:
                f = None
            else:
                f = self.fit(vs, pcs)
            forms[path] = f
            return Poison('value of a place the integration changes') if f is None else f[1](0)
        # which number of steps the loop head has already been asked for
        for d in (0, 1):
            want = s.band(self.pre.n, self.beyond(m.c(BASE + d)).n)
            if s.bsame(cur.pc, want, self.pre.n, 400) is None:
                break
        else:
            raise NoFit('condition of the loop')
        self.shift[key] = d
        cells = {}
        for c, v in cur.c.items():
            vs = [x.c.get(c) for x in hist]
            if any(x is None for x in vs):
                cells[c] = Poison('value of a place the integration changes')
                forms[(c,)] = None
            else:
                cells[c] = self.walk(vs, (c,), leaf)
        self.found[key] = (forms, cells)
        return State(s.band(self.pre.n, self.beyond(self.j + d).n), cells)

    def again(self, I, key, cur):
        """One step later: the closed forms must hold for j + 1 where another step is due; the rest goes on."""
        s = self.X.s
        if key in self.done:
            return None
        self.done.add(key)
        forms, old = self.found[key]
        d = self.shift[key]
        want = s.band(self.pre.n, s.band(self.beyond(self.j + d).n, self.beyond(self.j + (1 + d)).n))
        self.forms = {f[0] for f in forms.values() if f}
        if s.bsame(cur.pc, want, want, 2000) is not None:
            self.bad.append(('condition', None, cur.pc, want, want))
        care = s.band(cur.pc, want)
        due = I.branch(cur, want)
        if due is not None:
            self.persist(forms, old, due, care)
        return I.branch(cur, s.bnot(want)) or False

    def persist(self, forms, old, cur, care):
        def go(v, o, path):
            if path in forms:
                f = forms[path]
                if f is not None and not self.equal(v, f[1](1), care):
                    self.bad.append((f[0], path, v, f[1](1), care))
                return
            if v is o:
                return
            ty = type(v)
            if ty is not type(o):
                self.bad.append(('same', path, v, o, care))
            elif ty is Agg and len(v.f) == len(o.f):
                for i, (x, y) in enumerate(zip(v.f, o.f)):
                    go(x, y, path + (i,))
            elif ty is Enum and set(v.p) == set(o.p):
                go(v.tag, o.tag, path + ('t',))
                for k in v.p:
                    for i, (x, y) in enumerate(zip(v.p[k], o.p[k])):
                        go(x, y, path + (k, i))
            elif ty is Ref or ty is Box:
                go(v.v, o.v, path + ('*',))
            elif ty is It and v.kind == o.kind and isinstance(v.d, tuple) and isinstance(o.d, tuple) and len(v.d) == len(o.d):
                for i, (x, y) in enumerate(zip(v.d, o.d)):
                    go(x, y, path + (i,))
            elif not self.equal(v, o, care):
                self.bad.append(('same', path, v, o, care))
        for c, o in old.items():
            if c in cur.c:
                go(cur.c[c], o, (c,))
            else:
                self.bad.append(('same', (c,), None, o, care))

    def equal(self, a, b, care):
        """Structural equality of two values on care."""
        if a is b:
            return True
        if isinstance(a, (Term, B)):
            return self.eqv(a, b, care)
        if type(a) is not type(b):
            return False
        if isinstance(a, Agg):
            return len(a.f) == len(b.f) and all(self.equal(x, y, care) for x, y in zip(a.f, b.f))
        if isinstance(a, Enum):
            return self.eqv(a.tag, b.tag, care) and set(a.p) == set(b.p) and \
                all(self.equal(x, y, care) for k in a.p for x, y in zip(a.p[k], b.p[k]))
        if isinstance(a, (Ref, Box)):
            return self.equal(a.v, b.v, care)
        if isinstance(a, MRef):
            return a.cell == b.cell and a.proj == b.proj
        if isinstance(a, Fn):
            return a.callee == b.callee
        if isinstance(a, It):
            return a.kind == b.kind and (a.d == b.d or isinstance(a.d, tuple) and isinstance(b.d, tuple) and len(a.d) == len(b.d)
                                         and all(self.equal(x, y, care) for x, y in zip(a.d, b.d)))
        if isinstance(a, Seq):
            return a.base is b.base and len(a.items) == len(b.items) and \
                all(g == h and self.equal(x, y, care) for (g, x), (h, y) in zip(a.items, b.items))
        if isinstance(a, (int, str)):
            return a == b
        return isinstance(a, Poison)

    # ---------------------------------------------------------------- outcome
    def settle(self):
        """Places whose closed form turned out wrong without being a quantity of the reference: to be tried without."""
        if not self.found:
            raise NoFit('no loop carries the reference state')
        if set(self.found) != self.done:
            self.bad.append(('condition', None, 0, 0, 0))
        return {b[1] for b in self.bad if b[0] in ('affine', 'same')}

    def ends(self, chk):
        """Another step is made exactly when the time is that far away, so the number of steps is that of the time."""
        chk.ob('the steps taken are those the time asks for, for any number of steps', not any(b[0] == 'condition' for b in self.bad),
               '; '.join(k[2] for k in self.found), 'another step is made, or not made, at some number of steps')

    def report(self, chk):
        self.ends(chk)
        for q in ('xli', 'xni', 'xldot', 'xndt', 'xnddt', 'at'):
            bad = [b for b in self.bad if b[0] == q]
            if bad:
                v, w = bad[0][2:4]
                s = self.X.s
                d = s.same(v, w, bad[0][4], 400) if isinstance(v, Term) else None
                chk.ob('%s after one more step' % q, False, chk.where(self.X, d[1], d[2]) if d else '',
                       'differs' + (' when ' + chk.path(d[0]) if d else ''))
            elif q in self.forms:
                chk.ob('%s after one more step' % q, True)
