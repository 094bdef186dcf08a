"""Expression DSL in which the reference equations are written (values are terms of terms.py)."""
from fractions import Fraction
from terms import Term


class C:
    """Condition (BDD)."""
    __slots__ = ('s', 'n')

    def __init__(self, s, n):
        self.s, self.n = s, n

    def __and__(self, o):
        return C(self.s, self.s.band(self.n, o.n))

    def __or__(self, o):
        return C(self.s, self.s.bor(self.n, o.n))

    def __invert__(self):
        return C(self.s, self.s.bnot(self.n))


class V:
    """Real value."""
    __slots__ = ('s', 't')

    def __init__(self, s, t):
        self.s, self.t = s, t

    def w(self, o):
        if isinstance(o, V):
            return o.t
        if isinstance(o, Term):
            return o
        return self.s.const(num(o))

    def __add__(self, o):
        return V(self.s, self.s.add(self.t, self.w(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return V(self.s, self.s.sub(self.t, self.w(o)))

    def __rsub__(self, o):
        return V(self.s, self.s.sub(self.w(o), self.t))

    def __mul__(self, o):
        return V(self.s, self.s.mul(self.t, self.w(o)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return V(self.s, self.s.div(self.t, self.w(o)))

    def __rtruediv__(self, o):
        return V(self.s, self.s.div(self.w(o), self.t))

    def __neg__(self):
        return V(self.s, self.s.neg(self.t))

    def __pow__(self, e):
        return V(self.s, self.s.pow(self.t, self.s.const(num(e))))

    def __mod__(self, o):
        return V(self.s, self.s.rem(self.t, self.w(o)))

    def __lt__(self, o):
        return C(self.s, self.s.lt(self.t, self.w(o)))

    def __le__(self, o):
        return C(self.s, self.s.le(self.t, self.w(o)))

    def __gt__(self, o):
        return C(self.s, self.s.lt(self.w(o), self.t))

    def __ge__(self, o):
        return C(self.s, self.s.le(self.w(o), self.t))

    def eq(self, o):
        return C(self.s, self.s.eq(self.t, self.w(o)))


def num(x):
    """Exact value of a number written in the reference text."""
    if isinstance(x, float):
        return Fraction(repr(x))
    return Fraction(x)


class M:
    def __init__(self, s):
        self.s = s
        self.pi = V(s, s.pi)
        self.twopi = V(s, s.mul(s.const(2), s.pi))
        self.true = C(s, 1)
        self.false = C(s, 0)

    def c(self, x):
        return V(self.s, self.s.fconst(x) if isinstance(x, float) else self.s.const(num(x)))

    def v(self, t):
        return V(self.s, t)

    def sin(self, x):
        return V(self.s, self.s.sin(x.t))

    def cos(self, x):
        return V(self.s, self.s.cos(x.t))

    def sqrt(self, x):
        return V(self.s, self.s.sqrt(x.t))

    def abs(self, x):
        return V(self.s, self.s.abs(x.t))

    def floor(self, x):
        return V(self.s, self.s.floor(x.t))

    def atan2(self, y, x):
        return V(self.s, self.s.atan2(y.t, x.t))

    def asin(self, x):
        return V(self.s, self.s.asin(x.t))

    def where(self, c, a, b):
        a = a.t if isinstance(a, V) else self.s.const(num(a))
        b = b.t if isinstance(b, V) else self.s.const(num(b))
        return V(self.s, self.s.ite(c.n, a, b))
