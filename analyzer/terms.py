"""Value domain of the analysis: gated value graphs with random-interpretation value numbers.

A Term is a node of a hash-consed value graph.  Its value number is a vector of K elements
of the prime field F_P, computed homomorphically for + - * / and by keyed hashing for
everything else (Gulwani & Necula, "Global value numbering using random interpretation").
Two terms with the same number are the same term: the store returns the first one built.

Conditions are reduced ordered decision diagrams (BDDs) over atoms "u < tau" / "u <= tau" and
uninterpreted predicates; joins build multi-terminal diagrams ('ite' terms) over the same atoms.
No solver and no path enumeration is involved: branches are joined, and two values that differ
syntactically are compared by cofactoring on the atoms that guard the difference.
"""
import hashlib
import math
from fractions import Fraction

P = (1 << 127) - 309       # 11 mod 12: every residue has exactly one cube root
THIRD = pow(3, -1, P - 1)
VMAX = 32                   # terms of a sum of products of roots kept apart
K = 3
HALF = P // 2
PI = math.pi


class TooComplex(Exception):
    pass


class Budget(Exception):
    pass


class Term:
    __slots__ = ('id', 'op', 'args', 'sort', 'fp', 'lin', 'vec', 'asup', 'deep', 'num', 'val',
                 'rng', 'prov', 'leaves')

    def __repr__(self):
        return show(self, 4)


def show(t, depth=4):
    if not isinstance(t, Term):
        return str(t)
    if t.op == 'const':
        v = t.val
        return str(v.numerator) if v.denominator == 1 else repr(float(v))
    if t.op in ('var', 'strc'):
        return str(t.args[0]) if t.op == 'var' else repr(t.args[0])
    if t.op == 'pi':
        return 'pi'
    if depth <= 0:
        return '..'
    inf = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
    if t.op in inf:
        return '(%s %s %s)' % (show(t.args[0], depth - 1), inf[t.op], show(t.args[1], depth - 1))
    if t.op == 'ite':
        return 'if[%s]{%s}else{%s}' % (t.args[0], show(t.args[1], depth - 1), show(t.args[2], depth - 1))
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args))


class Atom:
    __slots__ = ('i', 'kind', 'base', 'tau', 'tnum', 'le', 'chi', 'deep', 'integer', 'ord')

    def __repr__(self):
        if self.kind == 'cmp':
            return '%s %s %s' % (show(self.base, 3), '<=' if self.le else '<', show(self.tau, 2))
        return show(self.base, 3)


class Store:
    def __init__(self, seed=1):
        self.seed = str(seed).encode()
        self.terms = []
        self.by_key = {}
        self.by_fp = {}
        self.rhos = {}
        self.angles = {}
        self.atoms = []
        self.atom_key = {}
        self.bases = []           # base terms of comparisons
        self.base_chain = {}      # base id -> list of atoms
        self.prov = None
        self.steps = 0
        # BDD
        self.maxnodes = 1500000
        self.nodes = [(-1, 0, 0), (-1, 1, 1)]
        self.nsup = [0, 0]
        self.uniq = {}
        self.memo = {}
        self.sparse = {}
        self.axioms = []
        self.fz = tuple([0] * K)
        self.fo = tuple([1] * K)
        self.zero = self.const(0)
        self.one = self.const(1)
        self.izero = self.const(0, 'i')
        pi = self.h('pi')[0]
        self.pi = self._new('pi', (), 'f', tuple([pi] * K), num=PI)
        self.aliases = []

    # ------------------------------------------------------------ hashing
    def h(self, *parts):
        m = hashlib.blake2b(self.seed, digest_size=48)
        for p in parts:
            if isinstance(p, tuple):
                for x in p:
                    m.update(b'%x,' % x if isinstance(x, int) else str(x).encode() + b',')
            else:
                m.update(str(p).encode())
            m.update(b';')
        d = m.digest()
        return tuple(int.from_bytes(d[16 * r:16 * r + 16], 'big') % P for r in range(K))

    # ------------------------------------------------------------ construction
    def _new(self, op, args, sort, fp, num=None, val=None, lin=None, vec=None):
        k = (sort, fp)
        t = self.by_fp.get(k)
        if t is not None:
            if t.deep and t.op != 'ite' and args:
                d = 0
                for a in args:
                    if isinstance(a, Term):
                        d |= a.deep
                if d != t.deep and not d & ~t.deep:
                    # same value, built from fewer conditions: keep that structure (it cannot contain t itself)
                    t.op, t.args, t.deep = op, args, d
                    t.lin, t.vec = lin, vec
            return t
        t = Term()
        t.id = len(self.terms)
        t.op, t.args, t.sort, t.fp = op, args, sort, fp
        t.num, t.val, t.lin, t.vec = num, val, lin, vec
        t.rng = None
        t.prov = self.prov
        t.asup = 0
        t.leaves = 1
        d = 0
        for a in args:
            if isinstance(a, Term):
                d |= a.deep
        t.deep = d
        self.terms.append(t)
        self.by_fp[k] = t
        return t

    def fpc(self, q):
        return (q.numerator * pow(q.denominator, -1, P)) % P

    def const(self, q, sort='f'):
        q = Fraction(q)
        key = ('c', sort, q)
        t = self.by_key.get(key)
        if t is None:
            t = self._new('const', (), sort, tuple([self.fpc(q)] * K), num=float(q), val=q)
            if t.val is None:   # pathological: merged with a symbolic zero; keep the constant view
                t.val, t.num, t.op, t.args, t.deep = q, float(q), 'const', (), 0
            self.by_key[key] = t
        return t

    def fconst(self, x):
        """An f64 constant of the program (bits already decoded)."""
        key = ('fc', x)
        t = self.by_key.get(key)
        if t is None:
            t = self._snap(x)
            self.by_key[key] = t
        return t

    def _snap(self, x):
        if x != x or x in (math.inf, -math.inf):
            return self._new('var', (repr(x),), 'f', self.h('special', repr(x)))
        if x == 0:
            return self.zero
        dec = Fraction(repr(x))
        if len(repr(x).strip('-').replace('.', '').split('e')[0].strip('0')) <= 13:
            return self.const(dec)
        tol = 4.0 * math.ulp(abs(x))
        for v, t, rel in self.aliases:
            if abs(v - x) <= max(tol, rel * abs(v)):
                return t
        q = Fraction(x).limit_denominator(2000)
        if q and abs(q.numerator) * q.denominator < 1 << 38 and abs(float(q) - x) <= math.ulp(abs(x)):
            return self.const(q)
        for mul, mk in ((PI, lambda c: self.mul(c, self.pi)), (1 / PI, lambda c: self.div(c, self.pi))):
            r = x / mul
            q = Fraction(r).limit_denominator(100000)
            if q and abs(float(q) * mul - x) <= 2 * math.ulp(abs(x)) and max(abs(q.numerator), q.denominator) < 1000000:
                return mk(self.const(q))
        for k in (Fraction(1), Fraction(1, 2), Fraction(2), Fraction(-1), Fraction(-1, 2), Fraction(-2)):
            d = Fraction(x) - k * Fraction(PI)       # a folded pi + 0.05
            q = Fraction(round(d * 10 ** 9), 10 ** 9)
            if q and abs(d - q) <= 2 * math.ulp(max(abs(x), PI * abs(k))):
                return self.add(self.mul(self.const(k), self.pi), self.const(q))
        return self.const(dec)

    def var(self, name, sort='f', rng=None):
        key = ('v', sort, name)
        t = self.by_key.get(key)
        if t is None:
            t = self._new('var', (name,), sort, self.h('var', sort, name))
            t.rng = rng
            self.by_key[key] = t
        elif rng is not None and t.rng is None:
            t.rng = rng
        return t

    def strc(self, s):
        return self._new('strc', (s,), 's', self.h('strc', s))

    def hop(self, op, args, sort='f', rng=None, num=None):
        """Uninterpreted operation."""
        key = ('h', op, sort) + tuple(a.id if isinstance(a, Term) else ('#', a) for a in args)
        t = self.by_key.get(key)
        if t is None:
            parts = ['h', op]
            for a in args:
                parts.append(a.fp if isinstance(a, Term) else 'k' + str(a))
            t = self._new(op, tuple(args), sort, self.h(*parts), num=num)
            if rng is not None and t.rng is None:
                t.rng = rng
            self.by_key[key] = t
        return t

    # ------------------------------------------------------------ linear forms
    def linform(self, t):
        """(constant Fraction, {term id: coefficient}) with at most 400 summands."""
        if t.val is not None:
            return (t.val, {})
        if t.lin is not None:
            return t.lin
        return (Fraction(0), {t.id: Fraction(1)})

    def _lincomb(self, a, ca, b, cb):
        k1, d1 = self.linform(a)
        k2, d2 = self.linform(b)
        d = {}
        for i, c in d1.items():
            d[i] = c * ca
        for i, c in d2.items():
            d[i] = d.get(i, 0) + c * cb
        d = {i: c for i, c in d.items() if c}
        if len(d) > 400:
            return None
        return (k1 * ca + k2 * cb, d)

    # ------------------------------------------------------------ arithmetic
    def _dist(self, f, a, b=None):
        """Distribute over small joins when the other operand is closed."""
        if b is None:
            if a.op == 'ite':
                return self.mkite(a.args[0], f(a.args[1]), f(a.args[2]))
            return None
        small = a.leaves + b.leaves <= 17 and (a.op == 'ite' or b.op == 'ite')
        if not small:
            return None
        if (a.num is not None or self.closedleaves(a)) and (b.num is not None or self.closedleaves(b)) or \
           (a.num is not None) or (b.num is not None):
            if a.op == 'ite' and (b.op != 'ite' or a.args[0].ord <= b.args[0].ord):
                at = a.args[0]
                b1, b0 = (b, b) if not (b.asup >> at.i) & 1 else (self.tassume(b, at, 1), self.tassume(b, at, 0))
                return self.mkite(at, f(a.args[1], b1), f(a.args[2], b0))
            at = b.args[0]
            a1, a0 = (a, a) if not (a.asup >> at.i) & 1 else (self.tassume(a, at, 1), self.tassume(a, at, 0))
            return self.mkite(at, f(a1, b.args[1]), f(a0, b.args[2]))
        return None

    def closedleaves(self, t):
        if t.op == 'ite':
            return self.closedleaves(t.args[1]) and self.closedleaves(t.args[2])
        return t.num is not None

    def _num(self, f, *ts):
        for t in ts:
            if t.num is None:
                return None
        try:
            return f(*[t.num for t in ts])
        except (ZeroDivisionError, OverflowError, ValueError):
            return None

    def add(self, a, b):
        s = a.sort
        if a.val is not None and b.val is not None:
            return self.const(a.val + b.val, s)
        if a.val == 0:
            return b
        if b.val == 0:
            return a
        if a.id > b.id:
            a, b = b, a
        key = ('+', a.id, b.id)
        t = self.by_key.get(key)
        if t is None:
            t = self._dist(self.add, a, b)
            if t is None:
                fp = tuple((x + y) % P for x, y in zip(a.fp, b.fp))
                t = self._new('add', (a, b), s, fp, num=self._num(lambda x, y: x + y, a, b),
                              lin=self._lincomb(a, 1, b, 1), vec=self._vsum(a, b, 1))
            self.by_key[key] = t
        return t

    def neg(self, a):
        if a.val is not None:
            return self.const(-a.val, a.sort)
        key = ('n', a.id)
        t = self.by_key.get(key)
        if t is None:
            t = self._dist(self.neg, a)
            if t is None:
                fp = tuple((-x) % P for x in a.fp)
                vec = {m: tuple((-x) % P for x in r) for m, r in a.vec.items()} if a.vec else None
                t = self._new('neg', (a,), a.sort, fp, num=self._num(lambda x: -x, a),
                              lin=self._lincomb(a, -1, self.zero, 0), vec=vec)
            self.by_key[key] = t
        return t

    def sub(self, a, b):
        if a is b:
            return self.const(0, a.sort)
        if a.val is not None and b.val is not None:
            return self.const(a.val - b.val, a.sort)
        if b.val == 0:
            return a
        if a.val == 0:
            return self.neg(b)
        key = ('-', a.id, b.id)
        t = self.by_key.get(key)
        if t is None:
            t = self._dist(self.sub, a, b)
            if t is None:
                fp = tuple((x - y) % P for x, y in zip(a.fp, b.fp))
                t = self._new('sub', (a, b), a.sort, fp, num=self._num(lambda x, y: x - y, a, b),
                              lin=self._lincomb(a, 1, b, -1), vec=self._vsum(a, b, -1))
            self.by_key[key] = t
        return t

    # A value is a sum, over products m of quarter powers of bases, of field elements times m: vec = {m: elements}, with
    # m = ((base id, quarters 1..3), ..), and vec = None for a plain field element.  The product of two such sums is taken
    # in that algebra, so that a polynomial in square roots has one fingerprint however it is written.
    def _v(self, t):
        return t.vec or {(): t.fp}

    def _vsum(self, a, b, sign):
        if not a.vec and not b.vec:
            return None
        v = dict(self._v(a))
        for m, r in self._v(b).items():
            o = v.get(m)
            x = tuple((p + sign * q) % P for p, q in zip(o, r)) if o else tuple(sign * q % P for q in r)
            if any(x):
                v[m] = x
            else:
                v.pop(m, None)
        return self._vnorm(v)

    def _vnorm(self, v):
        return None if not v or len(v) > VMAX or len(v) == 1 and () in v else v

    def _rho(self, m):
        r = self.rhos.get(m)
        if r is None:
            r = (1,) * K
            for b, k in m:
                h = self.h('root', self.terms[b].fp)
                r = tuple(x * pow(y, k, P) % P for x, y in zip(r, h))
            self.rhos[m] = r
        return r

    def _vfp(self, v):
        if len(v) == 1 and () in v:
            return v[()]
        fp = (0,) * K
        for m, r in v.items():
            fp = tuple((f + x * y) % P for f, x, y in zip(fp, r, self._rho(m)))
        return fp

    def _vmul(self, a, b):
        v = {}
        for m, r in a.items():
            for n, q in b.items():
                x = tuple(p * o % P for p, o in zip(r, q))
                k = m or n
                full = None
                if m and n:
                    e = dict(m)
                    for i, j in n:
                        j += e.pop(i, 0)
                        if j >= 4:
                            t = self.terms[i]
                            if t.vec:         # a full power of a base that is itself a sum with roots
                                full = self._vmul(full, t.vec) if full else t.vec
                            else:
                                x = tuple(p * o % P for p, o in zip(x, t.fp))
                            j -= 4
                        if j:
                            e[i] = j
                    k = tuple(sorted(e.items()))
                for k, x in (self._vmul({k: x}, full) if full else {k: x}).items():
                    o = v.get(k)
                    v[k] = tuple((p + q) % P for p, q in zip(o, x)) if o else x
        return {m: r for m, r in v.items() if any(r)}

    def _vinv(self, v):
        """1 / v, or None where it is not worked out (quarter powers in a sum, too many terms)."""
        if len(v) == 1:
            (m, r), = v.items()
            if 0 in r:
                return None
            r = tuple(pow(x, -1, P) for x in r)
            for b, k in m:
                r = tuple(x * pow(y, -1, P) % P for x, y in zip(r, self.terms[b].fp))
            return {tuple((b, 4 - k) for b, k in m): r}
        if len(v) > VMAX or any(k != 2 for m in v for _, k in m):
            return None
        b = min(b for m in v for b, _ in m)
        conj = {m: tuple((-x) % P for x in r) if (b, 2) in m else r for m, r in v.items()}
        norm = self._vmul(v, conj)
        if any((b, 2) in m for m in norm) or not norm:
            return None
        inv = self._vinv(norm)
        return self._vmul(conj, inv) if inv else None

    def mul(self, a, b):
        if a.val is not None and b.val is not None:
            return self.const(a.val * b.val, a.sort)
        if a.val == 0 or b.val == 0:
            return self.const(0, a.sort)
        if a.val == 1:
            return b
        if b.val == 1:
            return a
        if a.id > b.id:
            a, b = b, a
        key = ('*', a.id, b.id)
        t = self.by_key.get(key)
        if t is None:
            t = self._dist(self.mul, a, b)
            if t is None and a.asup & b.asup and a.op == b.op == 'ite' and a.leaves + b.leaves <= 24:
                # a shared condition: the product is taken case by case
                at = self.atoms[min(a.args[0].i, b.args[0].i, key=self.okey)]
                t = self.mkite(at, self.mul(self.tassume(a, at, 1), self.tassume(b, at, 1)),
                               self.mul(self.tassume(a, at, 0), self.tassume(b, at, 0)))
            if t is None:
                lin = None
                if a.val is not None:
                    lin = self._lincomb(b, a.val, self.zero, 0)
                elif b.val is not None:
                    lin = self._lincomb(a, b.val, self.zero, 0)
                num = self._num(lambda x, y: x * y, a, b)
                t = self._prod('mul', (a, b), a.sort, a, b, False, num, lin)
            self.by_key[key] = t
        return t

    def _prod(self, op, args, sort, a, b, inverse, num, lin):
        if not a.vec and not b.vec:
            y = tuple(pow(x, -1, P) for x in b.fp) if inverse else b.fp
            return self._new(op, args, sort, tuple(p * q % P for p, q in zip(a.fp, y)), num=num, lin=lin)
        va, vb = self._v(a), self._v(b)
        if inverse:
            vb = self._vinv(vb) or {(): tuple(pow(x, -1, P) for x in b.fp)}
        if len(va) * len(vb) > 4 * VMAX:
            va, vb = {(): self._vfp(va)}, {(): self._vfp(vb)}
        v = self._vmul(va, vb)
        return self._new(op, args, sort, self._vfp(v), num=num, lin=lin, vec=self._vnorm(v))

    def div(self, a, b):
        if b.val is not None and b.val != 0:
            if a.val is not None:
                return self.const(a.val / b.val)
            return self.mul(self.const(1 / b.val), a)
        if a.val == 0:
            return self.zero
        key = ('/', a.id, b.id)
        t = self.by_key.get(key)
        if t is None:
            if any(x == 0 for x in b.fp):
                return self.hop('divzero', (a,))
            t = self._dist(self.div, a, b)
            if t is None and b.op == 'ite' and b.leaves <= 8:
                at, hi, lo = b.args
                t = self.mul(a, self.mkite(at, self.div(self.one, hi), self.div(self.one, lo)))
            if t is None:
                num = self._num(lambda x, y: x / y, a, b)
                t = self._prod('div', (a, b), 'f', a, b, True, num, None)
            self.by_key[key] = t
        return t

    def pown(self, a, n):
        if n == 0:
            return self.one
        if n < 0:
            return self.div(self.one, self.pown(a, -n))
        r = None
        base = a
        while n:
            if n & 1:
                r = base if r is None else self.mul(r, base)
            n >>= 1
            if n:
                base = self.mul(base, base)
        return r

    def pow(self, a, e):
        """a ** e for a Term exponent."""
        if e.val is not None:
            q = e.val
            if q.denominator == 1:
                return self.pown(a, int(q))
            if (q * 12).denominator == 1:
                return self.root(a, q)
        if e.val is None:
            k, d = self.linform(e)
            if k and k.denominator == 1 and d:
                return self.mul(self.pown(a, int(k)), self.pow(a, self.sub(e, self.const(k))))
            c, sg = self.cansign(e)
            if sg < 0:
                return self.div(self.one, self.pow(a, c))
        return self.hop('pow', (a, e), num=self._num(lambda x, y: x ** y if x > 0 else None, a, e))

    def root(self, a, q):
        if a.val is not None and a.val in (0, 1):
            return a
        key = ('root', a.id, q)
        t = self.by_key.get(key)
        if t is not None:
            return t
        q0 = q
        base = a
        inv = tuple(pow(x, -1, P) for x in a.fp)
        if inv < a.fp:
            base = self.div(self.one, a)
            q = -q
        # the power in thirds is taken in the field, the quarters that are left are symbols of their own
        n = int(q * 12)
        b = 3 * n % 4
        k = (n - 3 * b) // 4
        m = ((base.id, b),) if b else ()
        f = None
        if base.vec and k in (-3, 3):     # a whole power, taken in the algebra
            f = base.vec if k > 0 else self._vinv(base.vec)
        v = self._vmul({m: (1,) * K}, f) if f else {m: tuple(pow(x, k * THIRD % (P - 1), P) for x in base.fp)}
        num = None
        if a.num is not None and a.num > 0:
            num = a.num ** float(q0)
        t = self._new('root', (a, str(q0)), 'f', self._vfp(v), num=num, vec=self._vnorm(v))
        self.by_key[key] = t
        return t

    def sqrt(self, a):
        return self.root(a, Fraction(1, 2))

    def cansign(self, a):
        """(canonical representative of {a,-a}, sign)"""
        if a.val == 0 or a.fp[0] == 0:
            return a, 1
        if a.fp[0] > HALF:
            return self.neg(a), -1
        return a, 1

    def _odd(self, op, a, num=None):
        if a.val == 0:
            return self.zero
        c, s = self.cansign(a)
        t = self.hop(op, (c,), num=self._num(num, c) if num else None)
        return t if s > 0 else self.neg(t)

    def sincos(self, a):
        if a.val == 0:
            return self.zero, self.one
        key = ('sc', a.id)
        r = self.by_key.get(key)
        if r is not None:
            return r
        b = self.unwind(a)
        if b is not a:
            k2 = ('sc', b.id)
            r = self.by_key.get(k2) or self._sincos(b)
            self.by_key[k2] = self.by_key[key] = r
            return r
        r = self._sincos(a)
        self.by_key[key] = r
        return r

    def _sincos(self, a):
        if a.val == 0:
            return self.zero, self.one
        if a.op == 'ite':
            at, hi, lo = a.args
            (s1, c1), (s0, c0) = self.sincos(hi), self.sincos(lo)
            return self.mkite(at, s1, s0), self.mkite(at, c1, c0)
        c, s = self.cansign(a)
        h, level, odd = self.angle(c.fp)
        sf, cf = [], []
        for t in h:
            d = pow(1 + t * t, -1, P)
            x, y = 2 * t * d % P, (1 - t * t) * d % P
            for _ in range(level):
                x, y = 2 * x * y % P, (1 - 2 * x * x) % P
            sf.append(odd * x % P)
            cf.append(y)
        sn = self._new('sin', (c,), 'f', tuple(sf), num=self._num(math.sin, c))
        cs = self._new('cos', (c,), 'f', tuple(cf), num=self._num(math.cos, c))
        if s < 0:
            sn = self.neg(sn)
        return sn, cs

    def angle(self, fp):
        """(tan of half an angle b, n, sign) for an angle sign * 2^n b, sharing b with its doubles and halves."""
        r = self.angles.get(fp)
        if r is None:
            half = (P + 1) // 2
            for k in (1, -1, 2, -2, 3, -3):
                m = pow(2, k, P) if k > 0 else pow(half, -k, P)
                f = tuple(x * m % P for x in fp)
                for sg, g in ((1, f), (-1, tuple(-x % P for x in f))):
                    o = self.angles.get(g)
                    if o is not None and o[1] >= k:
                        r = o[0], o[1] - k, sg * o[2]
                        break
                if r:
                    break
            else:
                r = self.h('halftan', fp), 3, 1
            self.angles[fp] = r
        return r

    def twopi(self):
        t = self.memo.get('2pi')
        if t is None:
            t = self.memo['2pi'] = self.mul(self.const(2), self.pi)
        return t

    def unwind(self, a):
        """a without whole turns: x % 2pi -> x, + 2k pi -> nothing (for sin and cos)."""
        if a.val is not None or a.sort != 'f':
            return a
        k, d = self.linform(a)
        tp = self.twopi()
        turn = (tp.fp, self.neg(tp).fp)
        d = dict(d)
        fp = a.fp
        ch = False
        for _ in range(300):
            i = next((i for i, c in d.items() if self.terms[i].op == 'rem' and c.denominator == 1
                      and self.terms[i].args[1].fp in turn), None)
            if i is None:
                break
            c = d.pop(i)
            t = self.terms[i]
            k1, d1 = self.linform(t.args[0])
            n = c.numerator
            fp = tuple((x + n * (y - z)) % P for x, y, z in zip(fp, t.args[0].fp, t.fp))
            k += c * k1
            for j, e in d1.items():
                d[j] = d.get(j, 0) + c * e
                if not d[j]:
                    del d[j]
            ch = True
        c = d.get(self.pi.id)
        if c is not None and c.denominator == 1 and abs(c) > 1:
            n = c - c % 2
            d[self.pi.id] = c - n
            fp = tuple((x - n.numerator * y) % P for x, y in zip(fp, self.pi.fp))
            ch = ch or n != 0
        if not ch:
            return a
        t = self.by_fp.get(('f', fp))
        if t is None:
            t = self.const(k)
            for j, e in sorted(d.items()):
                t = self.add(t, self.mul(self.const(e), self.terms[j]))
        return t

    def sin(self, a):
        return self.sincos(a)[0]

    def cos(self, a):
        return self.sincos(a)[1]

    def asin(self, a):
        return self._odd('asin', a, math.asin)

    def atan(self, a):
        return self._odd('atan', a, math.atan)

    def atan2(self, y, x):
        c, s = self.cansign(y)
        # scale invariance: atan2(ky, kx) = atan2(y, x) is not used (sign of k unknown)
        t = self.hop('atan2', (c, x))
        return t if s > 0 else self.neg(t)

    def rem(self, a, m):
        if a.val is not None and m.val is not None and m.val != 0:
            v = abs(a.val) % abs(m.val)
            return self.const(v if a.val >= 0 else -v, a.sort)
        if a.sort == 'f':
            if m.num is not None and m.num < 0 or m.num is None and m.fp[0] > HALF:
                m = self.neg(m)      # x % -m == x % m
            c, s = self.cansign(a)
            t = self.hop('rem', (c, m), rng=(-m.num, m.num) if m.num is not None else None)
            return t if s > 0 else self.neg(t)
        d = self._dist(self.rem, a, m)
        if d is not None:
            return d
        rng = None
        if m.val is not None and m.val > 0:
            rng = (0 if a.rng and a.rng[0] is not None and a.rng[0] >= 0 else -(int(m.val) - 1), int(m.val) - 1)
        return self.hop('irem', (a, m), 'i', rng=rng)

    def floor(self, a):
        if a.val is not None:
            return self.const(math.floor(a.val))
        if a.op in ('i2f', 'floor'):
            return a
        d = self._dist(self.floor, a)
        if d is not None:
            return d
        r = self.frange(a)
        if r is not None and r[0] >= 0 and r[1] < 2 ** 53:
            return self.i2f(self.f2i(a, 'uint', 64))
        return self.hop('floor', (a,))

    def frange(self, t):
        """Finite interval of a real term, or None."""
        if t.num is not None:
            return (t.num, t.num) if t.val is None else (t.val, t.val)
        key = ('frange', t.id)
        if key in self.memo:
            return self.memo[key]
        r = None
        if t.op == 'i2f' or t.op == 'ite' or t.rng is not None:
            u = t.args[0] if t.op == 'i2f' else t
            if t.op == 'ite' and t.leaves <= 64:
                a, b = self.frange(t.args[1]), self.frange(t.args[2])
                r = (min(a[0], b[0]), max(a[1], b[1])) if a and b else None
            elif u.rng is not None and None not in u.rng:
                r = (u.rng[0], u.rng[1])
            elif u.op != 'i2f' and u.lin is not None and u is not t:
                r = self._linrange(u)
        elif t.lin is not None:
            r = self._linrange(t)
        self.memo[key] = r
        return r

    def _linrange(self, t):
        k, d = t.lin
        if len(d) > 1:
            # a fractional part: c * a - c * trunc(a) + k
            for i, c in d.items():
                u = self.terms[i]
                v = u.args[0] if u.op == 'i2f' else u
                if c < 0 and v.op == 'f2i' and v.args[1] == 'uint':
                    fr = self.frange(v.args[0])
                    if fr is None or fr[0] < 0:
                        continue
                    a = v.args[0] if t.sort == 'f' else None
                    if a is None:
                        continue
                    rest = self.sub(t, self.mul(self.const(-c), self.sub(a, u)))
                    if rest.val is not None:
                        return (rest.val, rest.val - c)
        lo = hi = k
        for i, c in d.items():
            u = self.terms[i]
            r = None if u is t else self.frange(u)
            if r is None:
                return None
            lo += min(c * r[0], c * r[1])
            hi += max(c * r[0], c * r[1])
        return (lo, hi)

    def abs(self, a):
        if a.val is not None:
            return self.const(abs(a.val), a.sort)
        if a.num is not None:
            return a if a.num >= 0 else self.neg(a)
        c, _ = self.cansign(a)
        if c.rng and c.rng[0] is not None and c.rng[0] >= 0:
            return c
        if c.rng and c.rng[1] is not None and c.rng[1] <= 0:
            return self.neg(c)
        return self.ite(self.lt(c, self.const(0, a.sort)), self.neg(c), c)

    def max(self, a, b):
        if a.num is not None and b.num is None:
            a, b = b, a
        elif b.num is None and a.id > b.id:
            a, b = b, a
        return self.ite(self.lt(a, b), b, a)

    def min(self, a, b):
        if a.num is not None and b.num is None:
            a, b = b, a
        elif b.num is None and a.id > b.id:
            a, b = b, a
        return self.ite(self.lt(b, a), b, a)

    def i2f(self, a):
        if a.val is not None:
            return self.const(a.val, 'f')
        key = ('i2f', a.id)
        t = self.by_key.get(key)
        if t is None:
            t = self._dist(self.i2f, a)
            if t is None and a.lin is not None and a.op != 'f2i':
                k, d = a.lin
                if not (k == 0 and len(d) == 1 and a.id in d):
                    t = self.const(k)
                    for i, c in d.items():
                        t = self.add(t, self.mul(self.const(c), self.i2f(self.terms[i])))
            if t is None:
                t = self._new('i2f', (a,), 'f', a.fp)
            self.by_key[key] = t
        return t

    def f2i(self, a, kind, bits):
        """float -> integer cast, truncating and saturating."""
        if a.val is not None:
            v = math.trunc(a.val)
            lo, hi = irange(kind, bits)
            return self.const(min(max(v, lo), hi), 'i')
        d = self._dist(lambda x: self.f2i(x, kind, bits), a)
        if d is not None:
            return d
        if a.op == 'i2f':
            b = a.args[0]
            lo, hi = irange(kind, bits)
            if b.rng and b.rng[0] is not None and b.rng[0] >= lo and b.rng[1] is not None and b.rng[1] <= hi:
                return b
        r = self.frange(a)
        if r is not None and r[0] >= 0 and r[1] < irange(kind, bits)[1]:
            kind, bits = 'uint', 64        # no saturation: one operation for all widths
            return self.hop('f2i', (a, kind, bits), 'i', rng=(math.floor(r[0]), math.floor(r[1])))
        if a.op == 'floor' and kind == 'uint':
            a = a.args[0]
        elif a.op == 'trunc':
            a = a.args[0]
        return self.hop('f2i', (a, kind, bits), 'i', rng=irange(kind, bits))

    # ------------------------------------------------------------ BDD
    def okey(self, i):
        return self.atoms[i].ord

    def sup(self, n):
        return self.nsup[n]

    def mk(self, a, hi, lo):
        """BDD node with chain simplification."""
        if hi == lo:
            return hi
        at = self.atoms[a]
        if at.kind == 'cmp':
            ch = self.base_mask(at)
            if self.nsup[hi] & ch:
                hi = self.assume(hi, at, 1)
            if self.nsup[lo] & ch:
                lo = self.assume(lo, at, 0)
            if hi == lo:
                return hi
            if self.nsup[hi] & ch and self.assume(hi, at, 0) == lo:
                return hi
            if self.nsup[lo] & ch and self.assume(lo, at, 1) == hi:
                return lo
        k = (a, hi, lo)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            if n > self.maxnodes:
                raise TooComplex('the branch conditions of this code are too many to be compared')
            self.nodes.append(k)
            self.nsup.append((1 << a) | self.nsup[hi] | self.nsup[lo])
            self.uniq[k] = n
        return n

    def base_mask(self, at):
        m = 0
        for b in self.base_chain.get(at.base.id, ()):
            if b is not at:
                m |= 1 << b.i
        return m

    def implied(self, at, val, other):
        """Truth of `other` given at == val, or None (same base)."""
        if other is at:
            return val
        k1 = (at.tnum, at.le)
        k2 = (other.tnum, other.le)
        if val == 1 and k2 > k1:
            return 1
        if val == 0 and k2 < k1:
            return 0
        return None

    def assume(self, n, at, val):
        """n with atom at fixed to val, and everything the chain implies."""
        if n < 2:
            return n
        m = (1 << at.i) | (self.base_mask(at) if at.kind == 'cmp' else 0)
        if not self.nsup[n] & m:
            return n
        key = ('as', n, at.i, val, len(self.base_chain.get(at.base.id, ())) if at.kind == 'cmp' else 0)
        r = self.memo.get(key)
        if r is None:
            a, hi, lo = self.nodes[n]
            oa = self.atoms[a]
            v = None
            if (m >> a) & 1:
                v = val if oa is at else self.implied(at, val, oa)
            if v == 1:
                r = self.assume(hi, at, val)
            elif v == 0:
                r = self.assume(lo, at, val)
            else:
                r = self.mk(a, self.assume(hi, at, val), self.assume(lo, at, val))
            self.memo[key] = r
        return r

    def bite(self, c, t, e):
        if c == 1:
            return t
        if c == 0:
            return e
        if t == e:
            return t
        if t == 1 and e == 0:
            return c
        key = ('ite', c, t, e)
        r = self.memo.get(key)
        if r is None:
            a = min((self.nodes[x][0] for x in (c, t, e) if x > 1), key=self.okey)
            at = self.atoms[a]
            r = self.mk(a, self.bite(self.assume(c, at, 1), self.assume(t, at, 1), self.assume(e, at, 1)),
                        self.bite(self.assume(c, at, 0), self.assume(t, at, 0), self.assume(e, at, 0)))
            self.memo[key] = r
        return r

    def band(self, a, b):
        return self.bite(a, b, 0)

    def bor(self, a, b):
        return self.bite(a, 1, b)

    def bnot(self, a):
        return self.bite(a, 0, 1)

    def implies(self, a, b):
        return self.band(a, self.bnot(b)) == 0

    def constrain(self, f, c):
        """Generalised cofactor of BDD f on care set c."""
        if c == 1 or f < 2 or c == 0:
            return f
        key = ('con', f, c)
        r = self.memo.get(key)
        if r is None:
            a = min(self.nodes[f][0], self.nodes[c][0], key=self.okey)
            at = self.atoms[a]
            c1, c0 = self.assume(c, at, 1), self.assume(c, at, 0)
            if c1 == 0:
                r = self.constrain(self.assume(f, at, 0), c0)
            elif c0 == 0:
                r = self.constrain(self.assume(f, at, 1), c1)
            elif self.nodes[f][0] != a and not (self.nsup[f] >> a) & 1:
                r = self.constrain(f, self.bor(c1, c0))
            else:
                r = self.mk(a, self.constrain(self.assume(f, at, 1), c1), self.constrain(self.assume(f, at, 0), c0))
            self.memo[key] = r
        return r

    def tconstrain(self, t, c):
        """Generalised cofactor of the top-level joins of a term."""
        if c < 2 or t.op != 'ite' or not t.asup & self.related(c):
            return t
        key = ('tcon', t.id, c)
        r = self.memo.get(key)
        if r is None:
            a = min(t.args[0].i, self.nodes[c][0], key=self.okey)
            at = self.atoms[a]
            c1, c0 = self.assume(c, at, 1), self.assume(c, at, 0)
            if c1 == 0:
                r = self.tconstrain(self.tassume(t, at, 0), c0)
            elif c0 == 0:
                r = self.tconstrain(self.tassume(t, at, 1), c1)
            elif not t.asup & (1 << a | self.base_mask(at)):
                r = self.tconstrain(t, self.bor(c1, c0))
            else:
                r = self.mkite(at, self.tconstrain(self.tassume(t, at, 1), c1),
                               self.tconstrain(self.tassume(t, at, 0), c0))
            self.memo[key] = r
        return r

    def related(self, c):
        """Support of c and the atoms on the same bases."""
        key = ('rel', c, len(self.atoms))
        r = self.memo.get(key)
        if r is None:
            r = m = self.nsup[c]
            i = 0
            while m:
                if m & 1 and self.atoms[i].kind == 'cmp':
                    r |= self.base_mask(self.atoms[i])
                m >>= 1
                i += 1
            self.memo[key] = r
        return r

    def chi(self, n):
        if n < 2:
            return tuple([n] * K)
        key = ('chi', n)
        r = self.memo.get(key)
        if r is None:
            a, hi, lo = self.nodes[n]
            w = self.atoms[a].chi
            r = tuple((x * y + (1 - x) * z) % P for x, y, z in zip(w, self.chi(hi), self.chi(lo)))
            self.memo[key] = r
        return r

    # ------------------------------------------------------------ atoms
    def pred(self, name, *args):
        """Uninterpreted Boolean predicate (BDD)."""
        t = self.hop('p:' + name, args, 'p')
        key = ('p', t.id)
        a = self.atom_key.get(key)
        if a is None:
            a = Atom()
            a.i = len(self.atoms)
            a.kind = 'pred'
            a.base = t
            a.tau = a.tnum = a.le = None
            a.ord = (a.i,)
            a.integer = False
            a.chi = self.h('chi', t.fp)
            a.deep = t.deep | (1 << a.i)
            self.atoms.append(a)
            self.atom_key[key] = a
        return self.mk(a.i, 1, 0)

    def ratrec(self, x):
        """Small rational congruent to x mod P, or None."""
        if x == 0:
            return Fraction(0)
        bound = 1 << 60
        r0, r1 = P, x
        s0, s1 = 0, 1
        while r1 > bound:
            q = r0 // r1
            r0, r1 = r1, r0 - q * r1
            s0, s1 = s1, s0 - q * s1
        if s1 == 0 or abs(s1) > bound:
            return None
        q = Fraction(r1, s1) if s1 > 0 else Fraction(-r1, -s1)
        if abs(q.numerator).bit_length() + q.denominator.bit_length() > 100:
            return None
        return q

    def closedrec(self, x):
        """A closed term with field value x: rational, rational*pi or rational/pi."""
        q = self.ratrec(x)
        if q is not None:
            return self.const(q)
        pi = self.pi.fp[0]
        q = self.ratrec(x * pow(pi, -1, P) % P)
        if q is not None:
            return self.mul(self.const(q), self.pi)
        q = self.ratrec(x * pi % P)
        if q is not None:
            return self.div(self.const(q), self.pi)
        return None

    def affine_of(self, fp, sort):
        """Find a registered base B with fp = r*B + s, r and s closed."""
        for b in self.bases:
            if b.sort != sort:
                continue
            f = b.fp
            r = (fp[0] - fp[1]) * self._binv(b) % P
            s = (fp[0] - r * f[0]) % P
            if (r * f[2] + s - fp[2]) % P:
                continue
            rt = self.closedrec(r)
            if rt is None or rt.num == 0:
                continue
            st = self.closedrec(s) if s else self.zero
            if st is None:
                continue
            return b, rt, st
        return None

    def _binv(self, b):
        k = ('binv', b.id)
        v = self.memo.get(k)
        if v is None:
            v = pow((b.fp[0] - b.fp[1]) % P, -1, P)
            self.memo[k] = v
        return v

    def hoist(self, d):
        """A join inside the linear form of d that comparison should look through."""
        if d.op == 'ite':
            return d if d.leaves <= 400 else None
        if d.lin is not None:
            n = 1
            c = None
            for i in d.lin[1]:
                t = self.terms[i]
                if t.op == 'ite':
                    n *= t.leaves
                    if c is None or t.args[0].ord < c.args[0].ord:
                        c = t
            if c is not None and n <= 400:
                return c
        return None

    def lt0(self, d, strict=True):
        """d < 0 (or d <= 0) as a BDD."""
        if d.num is not None:
            if d.val is not None:
                return 1 if (d.val < 0 if strict else d.val <= 0) else 0
            return 1 if (d.num < 0 if strict else d.num <= 0) else 0
        key = ('lt0', d.id, strict)
        r = self.memo.get(key)
        if r is not None:
            return r
        hj = self.hoist(d)
        if hj is not None:
            at = hj.args[0]
            c = self.mk(at.i, 1, 0)
            r = self.bite(c, self.lt0(self.tassume_lin(d, at, 1), strict), self.lt0(self.tassume_lin(d, at, 0), strict))
            self.memo[key] = r
            return r
        k, dd = self.linform(d)
        if len(dd) > 1:
            r = self.ltround(k, dd, strict)
            if r is not None:
                self.memo[key] = r
                return r
        # split off the closed part
        closed = self.const(k)
        for i, c in dd.items():
            t = self.terms[i]
            if t.num is not None:
                closed = self.add(closed, self.mul(self.const(c), t))
        u = tuple((x - y) % P for x, y in zip(d.fp, closed.fp))
        got = self.affine_of(u, d.sort)
        if got is None:
            # new base
            base = None
            nz = [(i, c) for i, c in dd.items() if self.terms[i].num is None]
            if len(nz) == 1:
                base = self.terms[nz[0][0]]
                got = (base, self.const(nz[0][1]), self.zero)
            else:
                base = self.by_fp.get((d.sort, u))
                if base is None:
                    # re-sorted closed part for integers
                    cl = closed if d.sort == 'f' else self.const(closed.val, d.sort)
                    base = self.sub(d, cl)
                got = (base, self.one, self.zero)
            self.bases.append(base)
            self.base_chain[base.id] = []
        b, rt, st = got
        # d = rt*b + (st+closed) < 0  <=>  b < tau (rt>0)  |  b > tau (rt<0)
        off = self.add(st, closed)
        tau = self.neg(self.div(off, rt))
        pos = rt.num > 0
        if b.sort == 'i':
            q = tau.val
            if pos:
                th = math.ceil(q) - 1 if strict else math.floor(q)
                r = self.cmpatom(b, self.const(th), True)
            else:
                th = math.floor(q) if strict else math.ceil(q) - 1
                r = self.bnot(self.cmpatom(b, self.const(th), True))
        elif pos:
            r = self.cmpatom(b, tau, not strict)
        else:
            r = self.bnot(self.cmpatom(b, tau, strict))
        self.memo[key] = r
        return r

    def ltround(self, k, dd, strict):
        """A whole number against a rounded one: k + sum of dd < 0 (or <= 0) as a comparison with what is rounded."""
        got = None
        for i, c in dd.items():
            t = self.terms[i]
            if c.denominator != 1 if isinstance(c, Fraction) else c != int(c):
                return None
            u = t.args[0] if t.op == 'i2f' else t
            if abs(c) == 1 and got is None and (t.op == 'floor' or u.op == 'f2i' and u.args[1] == 'uint'):
                got = (i, c, u)
            elif not (t.sort == 'i' or t.op in ('i2f', 'floor')):
                return None
        if got is None:
            return None
        i0, c0, u = got
        rest = self.zero
        for i, c in dd.items():
            if i != i0:
                t = self.terms[i]
                rest = self.add(rest, self.mul(self.const(c), self.i2f(t) if t.sort == 'i' else t))
        if u.op == 'f2i':
            fr = self.frange(rest)
            if fr is None or max(abs(fr[0]), abs(fr[1])) > 2 ** 60:
                return None
        y = u.args[0]
        if c0 > 0:
            # F <= m - rest
            m = math.ceil(-k) - 1 if strict else math.floor(-k)
            top = self.sub(self.const(m), rest)
            r = self.lt(y, self.add(top, self.one))
            return self.band(self.le(self.zero, top), r) if u.op == 'f2i' else r
        m = math.floor(k) + 1 if strict else math.ceil(k)
        low = self.add(self.const(m), rest)
        r = self.le(low, y)
        return self.bor(self.le(low, self.zero), r) if u.op == 'f2i' else r

    def cmpatom(self, b, tau, le):
        if b.rng is not None:
            lo, hi = b.rng
            if hi is not None and (tau.num >= hi if le else tau.num > hi):
                return 1
            if lo is not None and (tau.num < lo if le else tau.num <= lo):
                return 0
        q = tau.val
        if q is not None and b.op in ('i2f', 'floor', 'f2i'):
            # rounding: compare what is rounded
            if b.op == 'i2f':
                k = math.floor(q) if le else math.ceil(q) - 1
                return self.le(b.args[0], self.const(k, 'i'))
            if b.op == 'floor':
                return self.lt(b.args[0], self.const(math.floor(q) + 1 if le else math.ceil(q)))
            k = math.floor(q) if le else math.ceil(q) - 1
            if abs(k) < 2 ** 62:
                if k >= 0:
                    return self.lt(b.args[0], self.const(k + 1))
                return self.le(b.args[0], self.const(k)) if b.args[1] == 'int' else 0
        key = ('c', b.id, tau.id, le)
        a = self.atom_key.get(key)
        if a is None:
            a = Atom()
            a.i = len(self.atoms)
            a.kind = 'cmp'
            a.base, a.tau, a.tnum, a.le = b, tau, (tau.val if tau.val is not None else Fraction(tau.num)), le
            a.integer = b.sort == 'i'
            ch = self.base_chain.get(b.id)
            a.ord = (ch[0].ord[0] if ch else a.i, a.tnum, le)
            a.chi = self.h('chi', b.fp, tau.fp, le)
            a.deep = b.deep | (1 << a.i)
            self.atoms.append(a)
            self.atom_key[key] = a
            self.base_chain.setdefault(b.id, []).append(a)
        return self.mk(a.i, 1, 0)

    def lt(self, a, b):
        return self.lt0(self.sub(a, b), True)

    def le(self, a, b):
        return self.lt0(self.sub(a, b), False)

    def eq(self, a, b):
        if a is b:
            return 1
        d = self.sub(a, b)
        return self.band(self.lt0(d, False), self.bnot(self.lt0(d, True)))

    # ------------------------------------------------------------ joins
    def mkite(self, at, hi, lo):
        if hi is lo:
            return hi
        if at.kind == 'cmp':
            ch = self.base_mask(at)
            if hi.asup & ch:
                hi = self.tassume(hi, at, 1)
            if lo.asup & ch:
                lo = self.tassume(lo, at, 0)
            if hi is lo:
                return hi
            if hi.asup & ch and self.tassume(hi, at, 0) is lo:
                return hi
            if lo.asup & ch and self.tassume(lo, at, 1) is hi:
                return lo
            if at.le and not at.integer and hi.sort == 'f' and self.meet(at, hi, lo):
                # values that agree on the boundary: use the strict form
                n = self.cmpatom(at.base, at.tau, False)
                if n > 1:
                    at = self.atoms[self.nodes[n][0]]
        top = min([at.i] + [x.args[0].i for x in (hi, lo) if x.op == 'ite'], key=self.okey)
        if top != at.i:
            ta = self.atoms[top]
            return self.mkite(ta, self.mkite(at, self.tassume(hi, ta, 1), self.tassume(lo, ta, 1)),
                              self.mkite(at, self.tassume(hi, ta, 0), self.tassume(lo, ta, 0)))
        fp = tuple((w * x + (1 - w) * y) % P for w, x, y in zip(at.chi, hi.fp, lo.fp))
        old = self.by_fp.get((hi.sort, fp))
        if old is not None:
            return old
        t = self._new('ite', (at, hi, lo), hi.sort, fp)
        t.asup = (1 << at.i) | hi.asup | lo.asup
        t.deep = at.deep | hi.deep | lo.deep
        t.leaves = hi.leaves + lo.leaves
        if hi.rng and lo.rng:
            a, b = hi.rng, lo.rng
            t.rng = (min(a[0], b[0]) if a[0] is not None and b[0] is not None else None,
                     max(a[1], b[1]) if a[1] is not None and b[1] is not None else None)
        return t

    def meet(self, at, a, b):
        """a (below) and b (above) agree where the base of the comparison equals its bound."""
        if a is b:
            return True
        while a.op == 'ite' and a.args[0].kind == 'cmp' and a.args[0].base is at.base:
            a = a.args[2]
        while b.op == 'ite' and b.args[0].kind == 'cmp' and b.args[0].base is at.base:
            b = b.args[1]
        if a is b:
            return True
        if a.op == 'ite' or b.op == 'ite':
            top = min([x.args[0].i for x in (a, b) if x.op == 'ite'], key=self.okey)
            if a.leaves + b.leaves > 16:
                return False
            h = [x.args[1:] if x.op == 'ite' and x.args[0].i == top else (x, x) for x in (a, b)]
            return self.meet(at, h[0][0], h[1][0]) and self.meet(at, h[0][1], h[1][1])
        u = self.typed(at.tau, at.base.sort)
        d = self.sub(at.base, u)
        if all(d.fp):
            r = [(x - y) * pow(z, -1, P) % P for x, y, z in zip(a.fp, b.fp, d.fp)]
            if r[0] == r[1] == r[2]:
                return True
        a, b = self.at(a, at.base, u, 4), self.at(b, at.base, u, 4)
        return a is not None and b is not None and a.fp == b.fp

    def at(self, t, base, u, depth):
        """t with base replaced by u, as far as depth nodes down."""
        if t is base:
            return u
        if not depth or t.op == 'ite' or not any(isinstance(a, Term) for a in t.args):
            return t
        if t.sort != 'f':
            return t
        a = [self.at(x, base, u, depth - 1) if isinstance(x, Term) else x for x in t.args]
        if any(x is None for x in a):
            return None
        if all(x is y for x, y in zip(a, t.args)):
            return t
        r = self.rebuild(t, a)
        return None if r.val == 0 or r.op == 'divzero' else r      # what it multiplies may be singular there

    def typed(self, t, sort):
        if t.sort == sort:
            return t
        return self.const(t.val, sort)

    def tassume(self, t, at, val):
        """Top-level joins of t with atom fixed (and its chain)."""
        if t.op != 'ite':
            return t
        m = (1 << at.i) | (self.base_mask(at) if at.kind == 'cmp' else 0)
        if not t.asup & m:
            return t
        key = ('ta', t.id, at.i, val, len(self.base_chain.get(at.base.id, ())) if at.kind == 'cmp' else 0)
        r = self.memo.get(key)
        if r is None:
            oa, hi, lo = t.args
            v = None
            if (m >> oa.i) & 1:
                v = val if oa is at else self.implied(at, val, oa)
            if v == 1:
                r = self.tassume(hi, at, val)
            elif v == 0:
                r = self.tassume(lo, at, val)
            else:
                r = self.mkite(oa, self.tassume(hi, at, val), self.tassume(lo, at, val))
            self.memo[key] = r
        return r

    def tassume_lin(self, d, at, val):
        if d.op == 'ite':
            return self.tassume(d, at, val)
        k, dd = d.lin
        r = self.const(k, d.sort)
        for i, c in sorted(dd.items()):
            t = self.tassume(self.terms[i], at, val)
            r = self.add(r, self.mul(self.const(c, d.sort), t))
        return r

    def ite(self, c, a, b):
        """Join of two terms under BDD c."""
        if c == 1:
            return a
        if c == 0:
            return b
        if a is b:
            return a
        key = ('tite', c, a.id, b.id)
        r = self.memo.get(key)
        if r is None:
            top = min([self.nodes[c][0]] + [x.args[0].i for x in (a, b) if x.op == 'ite'], key=self.okey)
            at = self.atoms[top]
            r = self.mkite(at, self.ite(self.assume(c, at, 1), self.tassume(a, at, 1), self.tassume(b, at, 1)),
                           self.ite(self.assume(c, at, 0), self.tassume(a, at, 0), self.tassume(b, at, 0)))
            self.memo[key] = r
        return r

    # ------------------------------------------------------------ cofactors through the whole graph
    def dmask(self, at):
        return (1 << at.i) | (self.base_mask(at) if at.kind == 'cmp' else 0)

    def restrict(self, t, at, val, memo=None):
        """t with the atom fixed everywhere, also inside operators and other atoms."""
        m = self.dmask(at)
        if memo is None:
            memo = self.memo.setdefault(('rs', at.i, val, m), {})
        if not t.deep & m:
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        self.steps += 1
        if t.op == 'ite':
            oa, hi, lo = t.args
            c = self.ratom(oa, at, val, memo)
            if c == 1:
                r = self.restrict(hi, at, val, memo)
            elif c == 0:
                r = self.restrict(lo, at, val, memo)
            else:
                r = self.ite(c, self.restrict(hi, at, val, memo), self.restrict(lo, at, val, memo))
        else:
            args = [self.restrict(a, at, val, memo) if isinstance(a, Term) else a for a in t.args]
            r = self.rebuild(t, args)
        memo[t.id] = r
        return r

    def ratom(self, oa, at, val, memo):
        if oa is at:
            return val
        m = self.dmask(at)
        if oa.kind == 'cmp' and at.kind == 'cmp' and oa.base is at.base:
            v = self.implied(at, val, oa)
            if v is not None:
                return v
        if not oa.base.deep & m:
            return self.mk(oa.i, 1, 0)
        if oa.kind == 'cmp':
            b = self.restrict(oa.base, at, val, memo)
            return self.lt0(self.sub(b, self.typed(oa.tau, b.sort)), not oa.le)
        args = [self.restrict(a, at, val, memo) if isinstance(a, Term) else a for a in oa.base.args]
        return self.repred(oa.base.op[2:], args)

    def repred(self, name, args):
        return self.pred(name, *args)

    def rrestrict(self, n, at, val):
        """BDD n with the atom fixed, also inside its atoms."""
        if n < 2:
            return n
        m = self.dmask(at)
        key = ('rr', n, at.i, val, m)
        r = self.memo.get(key)
        if r is None:
            a, hi, lo = self.nodes[n]
            memo = self.memo.setdefault(('rs', at.i, val, m), {})
            c = self.ratom(self.atoms[a], at, val, memo)
            r = self.bite(c, self.rrestrict(hi, at, val), self.rrestrict(lo, at, val))
            self.memo[key] = r
        return r

    def rebuild(self, t, a):
        op = t.op
        if op == 'add':
            return self.add(*a)
        if op == 'sub':
            return self.sub(*a)
        if op == 'mul':
            return self.mul(*a)
        if op == 'div':
            return self.div(*a)
        if op == 'neg':
            return self.neg(*a)
        if op == 'sin':
            return self.sin(*a)
        if op == 'cos':
            return self.cos(*a)
        if op == 'asin':
            return self.asin(*a)
        if op == 'atan':
            return self.atan(*a)
        if op == 'atan2':
            return self.atan2(*a)
        if op in ('rem', 'irem'):
            return self.rem(*a)
        if op == 'root':
            return self.root(a[0], Fraction(a[1]))
        if op == 'floor':
            return self.floor(*a)
        if op == 'i2f':
            return self.i2f(*a)
        if op == 'f2i':
            return self.f2i(*a)
        if op == 'pow':
            return self.pow(*a)
        if op in self.sparse:
            return self.sparse[op](*a)
        return self.hop(op, tuple(a), t.sort, rng=t.rng)

    # ------------------------------------------------------------ comparison
    def nodeset(self, t):
        out = {}
        st = [t]
        while st:
            x = st.pop()
            if x.id in out:
                continue
            out[x.id] = x
            for a in x.args:
                if isinstance(a, Term):
                    st.append(a)
                elif isinstance(a, Atom):
                    st.append(a.base)
        return out

    def pick(self, a, b, done=()):
        at = self._pick(a, b, done)
        # decide first the atoms on which the operands of this one depend
        while at is not None and at.base.deep:
            m, i, nx = at.base.deep, 0, None
            while m:
                if m & 1 and i not in done:
                    nx = self.atoms[i]
                    break
                m >>= 1
                i += 1
            if nx is None:
                break
            at = nx
        return at

    def _pick(self, a, b, done):
        """An atom guarding the innermost difference of a and b."""
        na, nb = self.nodeset(a), self.nodeset(b)
        cnt = {}
        for n1, n2 in ((na, nb), (nb, na)):
            for i, x in n1.items():
                if i in n2:
                    continue
                kids = []
                for y in x.args:
                    if isinstance(y, Term):
                        kids.append(y)
                    elif isinstance(y, Atom):
                        kids.append(y.base)
                if all(k.id in n2 for k in kids):
                    m = x.asup
                    for k in kids:
                        m |= k.asup
                    i = 0
                    while m:
                        if m & 1:
                            cnt[i] = cnt.get(i, 0) + 1
                        m >>= 1
                        i += 1
        for i in done:
            cnt.pop(i, None)
        if cnt:
            return self.atoms[min(cnt, key=lambda i: (-cnt[i], i))]
        m = (a.asup | b.asup) or (a.deep | b.deep)
        # atoms occurring only on one side first
        x = (a.deep ^ b.deep) or m
        i = 0
        while x:
            if x & 1 and i not in done:
                return self.atoms[i]
            x >>= 1
            i += 1
        if (a.deep ^ b.deep):
            i, x = 0, a.deep | b.deep
            while x:
                if x & 1 and i not in done:
                    return self.atoms[i]
                x >>= 1
                i += 1
        return None

    def same(self, a, b, care=1, budget=400):
        """None if a == b whenever care holds, else (path, a', b') for a differing cofactor."""
        box = [budget, budget - 300]
        return self._same(a, b, care, [], box)

    def _same(self, a, b, care, path, box):
        if a is b or care == 0:
            return None
        if care > 1:
            a, b = self.tconstrain(a, care), self.tconstrain(b, care)
            if a is b:
                return None
        box[0] -= 1
        if box[0] <= 0:
            return (list(path) + ['budget'], a, b)
        if box[0] < box[1] and path and self.emptied(path):
            return None
        if not (a.deep | b.deep):
            if self.boundary(a, b, path + self.forced(care, path)) or self.contradicts(path):
                return None
            if self.emptied(path):
                return None
            memo, m = {}, {}
            for at, _ in path:
                if at.kind == 'cmp':
                    c, d = self.linform(self.sub(at.base, self.typed(at.tau, at.base.sort)))
                    if self.emptied(path, [(d, c, True)]) and \
                            self.emptied(path, [({i: -x for i, x in d.items()}, -c, True)]):
                        m[at.base.id] = self.typed(at.tau, at.base.sort)
                        m[self.neg(at.base).id] = self.neg(m[at.base.id])
            if m:
                a, b = self.subst(a, m, memo), self.subst(b, m, memo)
                memo = {}
            if self.rooted(a, path, memo) is self.rooted(b, path, memo):
                return None
            # the care set may still rule the path out
            if care > 1:
                n = care
                p = list(path)
                while n > 1:
                    i, hi, lo = self.nodes[n]
                    at = self.atoms[i]
                    nxt = hi if hi else lo
                    p.append((at, 1 if hi else 0))
                    n = nxt
                return (p, a, b)
            return (list(path), a, b)
        at = self.pick(a, b, {p[0].i for p in path})
        if at is None:
            return (list(path), a, b)
        for v in (1, 0):
            c = self.rrestrict(care, at, v)
            if c == 0:
                continue
            if not self.feasible(path + [(at, v)]):
                continue
            x, y = self.restrict(a, at, v), self.restrict(b, at, v)
            if x is not y:
                m = self.met(path, at, v, c)
                if m:
                    # the path is on a boundary: one value for the compared quantity
                    memo = {}
                    x, y, c = self.gsubst(x, m, memo), self.gsubst(y, m, memo), self.nsubst(c, m, memo)
            r = self._same(x, y, c, path + [(at, v)], box)
            if r is not None:
                return r
        return None

    def halfplanes(self, path):
        """The comparisons of a path as (coefficients, constant, strict) for sum + constant < 0 (or <= 0)."""
        out = []
        for at, v in path:
            if at.kind == 'cmp':
                k, d = self.linform(self.sub(at.base, self.typed(at.tau, at.base.sort)))
                s = 1 if v else -1
                out.append(({i: s * c for i, c in d.items() if c}, s * k, at.le != bool(v)))
        return out

    def emptied(self, path, extra=(), cap=1500):
        """The linear comparisons of the path have no common solution (elimination of one quantity at a time)."""
        cs = self.halfplanes(path) + list(extra)
        while True:
            if any(not d and (k > 0 or k == 0 and strict) for d, k, strict in cs):
                return True
            cs = [c for c in cs if c[0]]
            if not cs:
                return False
            n = {}
            for d, _, _ in cs:
                for i, c in d.items():
                    u = n.setdefault(i, [0, 0])
                    u[c > 0] += 1
            i = min(n, key=lambda x: n[x][0] * n[x][1] - sum(n[x]))
            lo, hi = [c for c in cs if c[0].get(i, 0) < 0], [c for c in cs if c[0].get(i, 0) > 0]
            cs = [c for c in cs if i not in c[0]]
            if len(cs) + len(lo) * len(hi) > cap:
                return False
            for d, k, st in lo:
                for e, j, su in hi:
                    p, q = e[i], -d[i]
                    f = {}
                    for x in d.keys() | e.keys():
                        c = p * d.get(x, 0) + q * e.get(x, 0)
                        if c:
                            f[x] = c
                    cs.append((f, p * k + q * j, st or su))

    def signon(self, k, path):
        """1 or -1 for the sign the path gives k, None if it leaves it open."""
        c, d = self.linform(k)
        if self.emptied(path, [(d, c, True)]):
            return 1
        if self.emptied(path, [({i: -x for i, x in d.items()}, -c, True)]):
            return -1
        return None

    def rooted(self, t, path, memo):
        """t with the factors of square roots taken under them where the path gives their signs."""
        r = memo.get(t.id)
        if r is None:
            r = t
            if t.vec and t.op in ('add', 'sub', 'neg', 'mul', 'div'):
                a = [self.rooted(x, path, memo) for x in t.args]
                r = self.rebuild(t, a)
                if t.op in ('mul', 'div'):
                    for x, y in ((a[0], a[1]), (a[1], a[0])):
                        if y.op == 'root' and y.args[1] == '1/2' and not x.vec and x.val is None:
                            sg = self.signon(x, path)
                            if sg:
                                f = self.mul if t.op == 'mul' else self.div
                                p, q = self.mul(x, x), y.args[0]
                                r = self.sqrt(f(p, q) if x is a[0] else f(q, p))
                                r = r if sg > 0 else self.neg(r)
                            break
            memo[t.id] = r
        return r

    def forced(self, care, path):
        """Comparisons that complete a boundary of the path and that care leaves no choice about."""
        if care < 2:
            return []
        out = []
        for at, v in path:
            if at.kind == 'cmp' and not at.integer and at.le == bool(v):
                o = self.atom_key.get(('c', at.base.id, at.tau.id, not at.le))
                if o is not None and (self.nsup[care] >> o.i) & 1 and self.rrestrict(care, o, v) == 0:
                    out.append((o, 1 - v))
        return out

    def met(self, path, at, v, care):
        """The value of the compared quantity when at completes base <= tau and not base < tau."""
        if at.kind != 'cmp':
            return None
        if at.integer:
            return self.pinned(path, at, v)
        if at.le != bool(v):
            return None
        o = self.atom_key.get(('c', at.base.id, at.tau.id, not at.le))
        if o is None:
            return None
        if (o, 1 - v) in path or care > 1 and (self.nsup[care] >> o.i) & 1 and self.rrestrict(care, o, v) == 0:
            return {at.base.id: self.typed(at.tau, at.base.sort)}
        return None

    def contradicts(self, path):
        """The comparisons of the path cannot all hold, given the integers they leave one value."""
        m = {}
        for i, (at, v) in enumerate(path):
            if at.kind == 'cmp' and at.integer and at.base.op not in ('add', 'sub', 'mul', 'neg'):
                m.update(self.pinned(path[:i], at, v) or {})
        if not m:
            return False
        n, memo = 1, {}
        for at, v in path:
            if at.kind == 'cmp' and at.base.id not in m:
                c = self.asubst(at, m, memo)
                n = self.band(n, c if v else self.bnot(c))
                if n == 0:
                    return True
        return False

    def pinned(self, path, at, v):
        """The only value that the comparison leaves to an integer."""
        k = at.tau.val if v else at.tau.val + 1
        rng = at.base.rng
        if at.base.op == 'var' and rng and k == rng[0 if v else 1]:
            return {at.base.id: self.const(k, 'i')}
        for o, w in path:
            if o.kind == 'cmp' and o.base is at.base and w != v and o.tau.val == (k - 1 if v else k):
                return {at.base.id: self.const(k, 'i')}
        return None

    def gsubst(self, t, m, memo):
        """Substitution that reaches conditions too."""
        r = m.get(t.id)
        if r is not None:
            return r
        r = memo.get(t.id)
        if r is None:
            if t.op == 'ite':
                r = self.ite(self.asubst(t.args[0], m, memo), self.gsubst(t.args[1], m, memo),
                             self.gsubst(t.args[2], m, memo))
            elif not any(isinstance(a, Term) for a in t.args):
                r = t
            else:
                k = [self.gsubst(a, m, memo) if isinstance(a, Term) else a for a in t.args]
                r = t if all(x is y for x, y in zip(k, t.args)) else self.rebuild(t, k)
            memo[t.id] = r
        return r

    def asubst(self, at, m, memo):
        b = self.gsubst(at.base, m, memo) if at.kind == 'cmp' else at.base
        if b is at.base:
            return self.mk(at.i, 1, 0)
        return self.lt0(self.sub(b, self.typed(at.tau, b.sort)), not at.le)

    def nsubst(self, n, m, memo):
        if n < 2:
            return n
        r = memo.get(('n', n))
        if r is None:
            a, hi, lo = self.nodes[n]
            r = self.bite(self.asubst(self.atoms[a], m, memo), self.nsubst(hi, m, memo), self.nsubst(lo, m, memo))
            memo[('n', n)] = r
        return r

    def feasible(self, path):
        lo, hi = {}, {}
        for at, v in path:
            if at.kind != 'cmp':
                continue
            k = at.base.id
            key = (at.tnum, 1 if at.le else 0)
            if v:
                if k not in hi or key < hi[k]:
                    hi[k] = key
            else:
                if k not in lo or key > lo[k]:
                    lo[k] = key
        for k in hi:
            if k in lo and lo[k] >= hi[k]:
                return False
        return True

    def boundary(self, a, b, path):
        """On the path u == tau, a and b agree if a - b is a multiple of u - tau."""
        tr = {}
        for at, v in path:
            if at.kind == 'cmp' and not at.integer:
                tr.setdefault((at.base.id, at.tau.id), {})[at.le] = v
        for at, v in path:
            if at.kind == 'cmp' and at.integer and at.base.rng and (
                    v and at.tau.val == at.base.rng[0] or not v and at.tau.val + 1 == at.base.rng[1]):
                u = self.const(at.tau.val + (0 if v else 1), 'i')
                m = self.pins(at.base, u)
                if m:
                    memo = {}
                    a, b = self.subst(a, m, memo), self.subst(b, m, memo)
                    if a is b:
                        return True
        for at, v in path:
            if at.kind == 'cmp' and tr.get((at.base.id, at.tau.id)) == {True: 1, False: 0}:
                d = self.sub(at.base, self.typed(at.tau, at.base.sort))
                diff = [(x - y) % P for x, y in zip(a.fp, b.fp)]
                if all(d.fp):
                    r = [x * pow(y, -1, P) % P for x, y in zip(diff, d.fp)]
                    if r[0] == r[1] == r[2]:
                        return True
                m, memo = {at.base.id: self.typed(at.tau, at.base.sort)}, {}
                a, b = self.subst(a, m, memo), self.subst(b, m, memo)
                if a is b or a.fp == b.fp:
                    return True
        return False

    def pins(self, base, u):
        """Variables forced to a value by base == u, u being an end of the range of base."""
        k, d = self.linform(base)
        if base.op == 'var':
            return {base.id: u}
        out = {}
        low = u.val == base.rng[0]
        tot = k
        for i, c in d.items():
            t = self.terms[i]
            if t.rng is None or t.rng[0] is None or t.rng[1] is None:
                return None
            v = t.rng[0] if (c > 0) == low else t.rng[1]
            out[i] = self.const(v, t.sort)
            tot += c * v
        return out if tot == u.val else None

    def subst(self, t, m, memo):
        r = m.get(t.id)
        if r is not None:
            return r
        r = memo.get(t.id)
        if r is None:
            if not any(isinstance(a, Term) for a in t.args) or t.op == 'ite':
                r = t
            else:
                r = self.rebuild(t, [self.subst(a, m, memo) if isinstance(a, Term) else a for a in t.args])
            memo[t.id] = r
        return r

    def bsame(self, f, g, care=1, budget=400):
        """None if BDDs f and g agree on care, else a path."""
        box = [budget]
        return self._bsame(f, g, care, [], box)

    def _bsame(self, f, g, care, path, box):
        f, g = self.constrain(f, care), self.constrain(g, care)
        if f == g or care == 0:
            return None
        box[0] -= 1
        if box[0] <= 0:
            return list(path) + ['budget']
        if f < 2 and g < 2:
            return None if self.contradicts(path) or self.emptied(path) else list(path)
        # prefer an atom that another atom depends on
        sf = self.nsup[f] | self.nsup[g]
        deep = 0
        m, i = sf, 0
        while m:
            if m & 1:
                deep |= self.atoms[i].base.deep
            m >>= 1
            i += 1
        done = 0
        for q in path:
            done |= 1 << q[0].i
        x = (deep & ~done) or (sf & ~done)
        if not x:
            return list(path)
        i = (x & -x).bit_length() - 1
        while self.atoms[i].base.deep & ~done:
            x = self.atoms[i].base.deep & ~done
            i = (x & -x).bit_length() - 1
        at = self.atoms[i]
        if not deep & ~done:
            # which variant a value is decides most about it
            y = x
            while y:
                j = (y & -y).bit_length() - 1
                y &= y - 1
                b = self.atoms[j]
                if b.kind == 'cmp' and b.integer and b.base.op == 'var' and b.base.rng and b.base.rng[1] is not None \
                        and b.base.rng[1] < 32:
                    at = b
                    break
        for v in (1, 0):
            c = self.rrestrict(care, at, v)
            if c == 0 or not self.feasible(path + [(at, v)]):
                continue
            x, y = self.rrestrict(f, at, v), self.rrestrict(g, at, v)
            if x != y:
                m = self.met(path, at, v, c)
                if m:
                    memo = {}
                    x, y, c = self.nsubst(x, m, memo), self.nsubst(y, m, memo), self.nsubst(c, m, memo)
            r = self._bsame(x, y, c, path + [(at, v)], box)
            if r is not None:
                return r
        return None

    def frontier(self, t, known):
        """Innermost nodes of t whose provenance is program text and that `known` (ids) does not contain."""
        out = []
        for i, x in sorted(self.nodeset(t).items()):
            if i in known:
                continue
            kids = []
            for y in x.args:
                if isinstance(y, Term):
                    kids.append(y)
                elif isinstance(y, Atom):
                    kids.append(y.base)
            if all(k.id in known for k in kids):
                out.append(x)
        return out


def irange(kind, bits):
    if kind == 'uint':
        return (0, (1 << bits) - 1)
    if kind == 'char':
        return (0, 0x10ffff)
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
