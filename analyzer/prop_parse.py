"""Checks of the text side: columns of the two-line format, records, files of many sets, robustness."""
import itertools
from fractions import Fraction as F
import rep
from common import Missing, R
from terms import Term
from interp import MRef, Ref, State, Agg, Enum, Seq, B, Box
from prop_orbit import REC

D = object()        # placeholder of a symbolic digit


class Lines:
    """A pair of well-formed lines of known layout whose digits are symbolic."""

    FIELDS1 = [('l1', '1 '), ('sat', [5]), ('cls', 'U '), ('intl', '98067A   '), ('yr', [2]), ('day', [3, '.', 8]),
               ('b1', ' '), ('ndot', [' ', '.', 8]), ('b2', ' '), ('nd', [' ', 5]), ('ndx', ['-', 1]), ('b3', ' '),
               ('bs', [' ', 5]), ('bsx', ['-', 1]), ('tail', [' 0 ', 5])]
    FIELDS2 = [('l2', '2 '), ('sat2', [5]), ('c1', ' '), ('inc', [3, '.', 4]), ('c2', ' '), ('node', [3, '.', 4]),
               ('c3', ' '), ('ecc', [7]), ('c4', ' '), ('argp', [3, '.', 4]), ('c5', ' '), ('ma', [3, '.', 4]),
               ('c6', ' '), ('mm', [2, '.', 8]), ('rev', [5]), ('chk', [1])]

    def __init__(self, X, junk=None, cut=None, **kw):
        self.X = X
        self.M = X.I.models
        self.f = {}
        self.col = {}
        out = []
        for ln, spec in ((1, self.FIELDS1), (2, self.FIELDS2)):
            el = []
            for name, sp in spec:
                sp = kw.get(name, sp)
                lo = len(el)
                for x in ([sp] if isinstance(sp, str) else sp):
                    if isinstance(x, str):
                        el += list(x)
                    else:
                        for k in range(x):
                            el.append(self.M.digit('%s%d' % (name, len(el) - lo)))
                self.f[name] = el[lo:]
                self.col[name] = (ln, lo, len(el))
            out.append(el)
        if junk:
            ln, c, ch = junk
            out[ln - 1][c] = ch
        if cut:
            ln, n = cut
            out[ln - 1] = out[ln - 1][:n]
        self.L = [self.M.text(e) for e in out]

    def int(self, el):
        s = self.X.s
        v = s.const(0, 'i')
        for e in el:
            if isinstance(e, str):
                if not e.isdigit():
                    continue
                e = s.const(int(e), 'i')
            v = s.add(s.mul(s.const(10, 'i'), v), e)
        return v

    def num(self, name):
        """Value of a decimal field: blanks, sign, digits with at most one point."""
        s = self.X.s
        el = self.f[name]
        p = el.index('.') if '.' in el else len(el)
        nd = sum(1 for e in el[p:] if not (isinstance(e, str) and not e.isdigit()))
        v = s.div(s.i2f(self.int(el)), s.const(10 ** nd))
        return self.X.m.v(s.neg(v) if '-' in el else v)

    def assumed(self, name):
        """Value of an assumed-decimal-point field with its power of ten."""
        s = self.X.s
        el, ex = self.f[name], self.f[name + 'x']
        v = s.div(s.i2f(self.int(el)), s.const(10 ** 5))
        e = s.i2f(self.int(ex))
        v = s.mul(v, s.pow(s.const(10), s.neg(e) if '-' in ex else e))
        return self.X.m.v(s.neg(v) if '-' in el else v)


BASE = [('as published', {})]
BLANKS = [
    ('day below 100', dict(day=[' ', 2, '.', 8])),
    ('day below 10', dict(day=['  ', 1, '.', 8])),
    ('small angles', dict(inc=[' ', 2, '.', 4], node=['  ', 1, '.', 4], argp=['  ', 1, '.', 4], ma=[' ', 2, '.', 4])),
    ('small angles 2', dict(inc=['  ', 1, '.', 4], node=[' ', 2, '.', 4], argp=[' ', 2, '.', 4], ma=['  ', 1, '.', 4])),
    ('slow mean motion', dict(mm=[' ', 1, '.', 8])),
    ('negative ndot', dict(ndot=['-', '.', 8])),
    ('signed ndot', dict(ndot=['+', '.', 8])),
    ('short number, left', dict(sat=['  ', 3], sat2=['  ', 3])),
    ('short number, right', dict(sat=[3, '  '], sat2=[3, '  '])),
    ('alpha-5 number', dict(sat=['B', 4], sat2=['B', 4])),
    ('other designator', dict(cls='C ', intl='74033AB1 ')),
    ('no designator', dict(cls='  ', intl='         ')),
    ('blank revolution', dict(rev='     ', tail='        ')),
    ('no checksum', dict(chk='', tail=[' 0 ', 4])),
    ('carriage return', dict(chk=[1, '\r'], tail=[' 0 ', 5, '\r'])),
]
SIGNS = [('%s digits, exponent %s' % (a or 'unsigned', b), a, b) for a in (' ', '-', '+') for b in '-+']


def parse_satrec(chk, X, L):
    v, ns = X.I.run(X.fn('io::parse_satrec'), [Ref(L[0]), Ref(L[1])], State(1, {}))
    return v, ns


def accepted(chk, X, v, ns, name='accepted'):
    if not chk.returns(X, ns):
        return None
    ok = chk.eq(X, name, v.tag, X.i(0))
    if not ok or 0 not in v.p:
        return None
    return v.p[0][0]


def C10(chk):
    cfg = BASE + BLANKS
    for label, kw in cfg:
        X = chk.ctx()
        chk.prefix = label + ': '
        ln = Lines(X, **kw)
        v, ns = parse_satrec(chk, X, ln.L)
        rec = accepted(chk, X, v, ns)
        if rec is None:
            continue
        m, s = X.m, X.s
        deg = m.pi / 180
        rev = m.twopi / 1440
        no = ln.num('mm') * rev
        ecc = X.m.v(s.div(s.i2f(ln.int(ln.f['ecc'])), s.const(10 ** 7)))
        a = (no * X.th.tumin) ** F(-2, 3)
        sat = X.I.models.trim(X.I.models.text(ln.f['sat']))
        want = dict(satnum=sat, epochyr=ln.int(ln.f['yr']), epochdays=ln.num('day').t,
                    ndot=(ln.num('ndot') * rev / 1440).t, inclo=(ln.num('inc') * deg).t,
                    nodeo=(ln.num('node') * deg).t, argpo=(ln.num('argp') * deg).t, mo=(ln.num('ma') * deg).t,
                    no=no.t, ecco=ecc.t, a=a.t, alta=(a * (1 + ecc) - 1).t, altp=(a * (1 - ecc) - 1).t)
        for k, w in want.items():
            chk.eq(X, k, X.get(rec, k), w)
        chk.eq(X, 'no name', X.get(rec, 'name').tag, X.i(0))
        if label == 'as published':
            chk.samples.append('line 1 %s / line 2 %s' % (''.join(x if isinstance(x, str) else 'd' for n, _ in
                               Lines.FIELDS1 for x in ln.f[n]), ''.join(x if isinstance(x, str) else 'd' for n, _ in
                                                                         Lines.FIELDS2 for x in ln.f[n])))
            chk.eq(X, 'error', X.get(rec, 'error'), X.i(0))
    chk.prefix = ''


def C11(chk):
    for which in ('nd', 'bs'):
        for label, a, b in SIGNS:
            X = chk.ctx()
            chk.prefix = '%s, %s: ' % ('second derivative' if which == 'nd' else 'drag term', label)
            ln = Lines(X, **{which: [a, 5], which + 'x': [b, 1]})
            v, ns = parse_satrec(chk, X, ln.L)
            rec = accepted(chk, X, v, ns)
            if rec is None:
                continue
            m = X.m
            rev = m.twopi / 1440
            chk.eq(X, 'nddot', X.get(rec, 'nddot'), (ln.assumed('nd') * rev / 1440 / 1440).t)
            chk.eq(X, 'bstar', X.get(rec, 'bstar'), ln.assumed('bs').t)
    for label, kw in (('eccentricity with leading zeros', dict(ecc=['00', 5])), ('tiny eccentricity', dict(ecc=['000000', 1])),
                      ('fractions with leading zeros', dict(nd=[' 00', 3], bs=['-000', 2])),
                      ('zero fractions', dict(nd=' 00000', ndx='-0', bs=' 00000', bsx='+0'))):
        X = chk.ctx()
        chk.prefix = label + ': '
        ln = Lines(X, **kw)
        v, ns = parse_satrec(chk, X, ln.L)
        rec = accepted(chk, X, v, ns)
        if rec is None:
            continue
        s, m = X.s, X.m
        rev = m.twopi / 1440
        chk.eq(X, 'ecco', X.get(rec, 'ecco'), s.div(s.i2f(ln.int(ln.f['ecc'])), s.const(10 ** 7)))
        chk.eq(X, 'nddot', X.get(rec, 'nddot'), (ln.assumed('nd') * rev / 1440 / 1440).t)
        chk.eq(X, 'bstar', X.get(rec, 'bstar'), ln.assumed('bs').t)
    chk.prefix = ''


# fields that must be numbers, and the last column each line needs
NUMERIC = ['yr', 'day', 'ndot', 'nd', 'bs', 'inc', 'node', 'ecc', 'argp', 'ma', 'mm']


def C29(chk):
    """Damaged lines are refused."""
    X0 = chk.ctx()
    col = Lines(X0).col
    for name in NUMERIC:
        ln, lo, hi = col[name]
        cols = range(lo, hi) if chk.deep else sorted({lo + 1, (lo + hi) // 2, hi - 1})
        for c in cols:
            for ch in ('x',) if not chk.deep else ('x', '/', ','):
                X = chk.ctx()
                chk.prefix = '%r in column %d of line %d: ' % (ch, c + 1, ln)
                L = Lines(X, junk=(ln, c, ch)).L
                v, ns = parse_satrec(chk, X, L)
                refused(chk, X, v, ns, ln, c, L)
    for name in ('ndx', 'bsx'):
        ln, lo, hi = col[name]
        X = chk.ctx()
        chk.prefix = "'x' in column %d of line %d: " % (hi, ln)
        L = Lines(X, junk=(ln, hi - 1, 'x')).L
        v, ns = parse_satrec(chk, X, L)
        refused(chk, X, v, ns, ln, hi - 1, L)
    for ln, name in ((1, 'bsx'), (2, 'mm')):
        last = col[name][2]
        lens = range(0, last) if chk.deep else [0, 1, 10, 20, 33, 45, 52, last - 2, last - 1]
        for n in lens:
            X = chk.ctx()
            chk.prefix = 'line %d cut after %d characters: ' % (ln, n)
            L = Lines(X, cut=(ln, n)).L
            v, ns = parse_satrec(chk, X, L)
            refused(chk, X, v, ns, None, None, L)
    for name in NUMERIC:
        if name in ('nd', 'bs'):
            continue
        ln, lo, hi = col[name]
        X = chk.ctx()
        chk.prefix = 'blank columns %d-%d of line %d: ' % (lo + 1, hi, ln)
        L = Lines(X, **{name: ' ' * (hi - lo)}).L
        v, ns = parse_satrec(chk, X, L)
        refused(chk, X, v, ns, ln, (lo + hi) // 2, L)
    # the loader passes the refusal on
    for junk in ((1, 25, 'x'), (2, 10, 'x')):
        X = chk.ctx()
        chk.prefix = 'loading with column %d of line %d damaged: ' % (junk[1] + 1, junk[0])
        L = Lines(X, junk=junk).L
        v, ns = X.I.run(X.fn('io::twoline2satrec'), [Ref(L[0]), Ref(L[1])], State(1, {}))
        refused(chk, X, v, ns, junk[0], junk[1], L)
    chk.prefix = ''


def refused(chk, X, v, ns, ln, c, L):
    if not chk.returns(X, ns):
        return
    if not chk.eq(X, 'refused', v.tag, X.i(1)):
        return
    e = v.p.get(1, (None,))[0]
    if not isinstance(e, Enum) or e.tag.val is None or c is None:
        return
    k = int(e.tag.val)
    name = X.I.types[e.ty]['variants'][k]['name']
    f = e.p.get(k, ())
    if name in ('FloatParseError', 'IntParseError') and len(f) == 4 and all(isinstance(x, Term) for x in f[1:]) \
            and f[1].val is not None and f[2].val is not None:
        chk.ob('the reported columns hold the damage', f[1].val <= c < f[2].val, 'io::parse_satrec',
               'reports columns %s..%s' % (f[1].val, f[2].val))
        chk.eq(X, 'the reported text', f[3], X.I.models.slice(L[ln - 1], int(f[1].val), int(f[2].val)))


# ---------------------------------------------------------------- no panic on any text
def symtext(X, name):
    return X.s.var(name, 's')


def C12(chk):
    for fn in ('io::parse_satrec', 'io::twoline2satrec'):
        X = chk.ctx()
        chk.prefix = fn + ' on any two strings: '
        v, ns = X.I.run(X.fn(fn), [Ref(symtext(X, 'L1')), Ref(symtext(X, 'L2'))], State(1, {}))
        chk.returns(X, ns)
        chk.nopanic(X)
        chk.noloop(X)
    n = 5 if chk.deep else 4
    for fn in ('io::parse', 'io::parse_multiple'):
        for k in range(n + 1):
            X = chk.ctx()
            chk.prefix = '%s on any text of %d non-blank lines: ' % (fn, k)
            T, raw = document(X, ['?'] * k)
            X.I.intercept = {X.fn('io::twoline2satrec'): opaque}
            v, ns = X.I.run(X.fn(fn), [Ref(T)], State(X.facts, {}))
            chk.returns(X, ns, X.facts)
            chk.nopanic(X, X.facts)
            chk.noloop(X, X.facts)
    chk.prefix = ''


# ---------------------------------------------------------------- documents
def opaque(I, args, st, destty):
    return unnamed(I, I.uf(destty, 'two-line set', args, st)), st


def unnamed(I, r):
    """A set of two lines has no name (checked by C10 for every layout of the lines)."""
    rec = r.p[0][0]
    k = [f[0] for f in I.types[rec.ty]['variants'][0]['fields']].index('name')
    name = rec.f[k]
    name = Enum(name.ty, I.s.const(0, 'i'), {0: ()})
    return Enum(r.ty, r.tag, {**r.p, 0: (Agg(rec.ty, rec.f[:k] + (name,) + rec.f[k + 1:]),)})


def loaded(I, args, st, destty):
    """A set that loads (for long documents, where one outcome per set would be too many cases)."""
    r = unnamed(I, I.uf(destty, 'two-line set', args, st))
    return Enum(r.ty, I.s.const(0, 'i'), {0: r.p[0]}), st


def document(X, kinds):
    """A text whose lines are of the given kinds: '1' '2' '0' (first character), 'n' (another first character),
    '?' (any non-blank line), '_' (blank).  Returns the text and its non-blank lines; facts go to X.facts."""
    s, M = X.s, X.I.models
    T = s.var('T', 's')
    lines, keep = [], []
    pc = 1
    zero = s.const(0, 'i')
    for i, k in enumerate(kinds):
        t = s.var('line%d' % i, 's')
        lines.append(t)
        if k == '_':
            M.blank.add(t.id)
            continue
        keep.append(t)
        pc = s.band(pc, s.le(s.const(1, 'i'), M.slen(t)))
        pc = s.band(pc, s.le(s.const(1, 'i'), M.slen(M.trim(t))))
        b = M.byte(t, zero)
        for ch in '120':
            e = s.eq(b, s.const(ord(ch), 'i'))
            if k == ch:
                pc = s.band(pc, e)
            elif k != '?':
                pc = s.band(pc, s.bnot(e))
    M.lines_of[T.id] = lines
    X.facts = pc
    return T, keep


def nameof(X, t, kind):
    s, M = X.s, X.I.models
    if kind == '0':
        c = M.bnd(t, 2)
        return s.ite(c, M.trim(M.slice(t, 2, None)), s.strc(''))
    return M.trim(t)


def named(X, rec, name):
    ty = X.get(rec, 'name').ty
    k = X.variant(ty, 'Some')
    return X.put(rec, name=Enum(ty, X.i(k), {k: (name,)}))


def groups(kinds):
    """Reference segmentation of the non-blank lines: (index, name index or None, line 1, line 2) or (index,)."""
    out, i, n = [], 0, len(kinds)
    while i < n:
        pair = i + 1 < n and kinds[i] == '1' and kinds[i + 1] == '2'
        if i + 2 < n and not pair:
            out.append((i, i, i + 1, i + 2))
            i += 3
        elif i + 1 < n:
            out.append((i, None, i, i + 1))
            i += 2
        else:
            out.append((i,))
            i += 1
    return out


def result(X, l1, l2, pc):
    """What loading the two lines yields (the same function the program is analysed with)."""
    st = State(pc, {})
    fn = X.fn('io::twoline2satrec')
    if fn in X.I.intercept:
        b = X.I.body(fn)
        return X.I.intercept[fn](X.I, [Ref(l1), Ref(l2)], st, b.b['locals'][0][0])[0]
    return X.I.run(fn, [Ref(l1), Ref(l2)], st)[0]


def multi(chk, kinds, inter=True):
    X = chk.ctx(max(40, 3 * len(kinds) + 10))
    s = X.s
    T, lines = document(X, kinds)
    fn = X.fn('io::twoline2satrec')
    if inter:
        X.I.intercept = {fn: opaque if len(kinds) <= 24 else loaded}
    v, ns = X.I.run(X.fn('io::parse_multiple'), [Ref(T)], State(X.facts, {}))
    if not chk.returns(X, ns, X.facts):
        return False
    ks = [k for k in kinds if k != '_']
    recs, errs = [], []
    ety = X.adt('io::SatrecParseError')
    km = X.variant(ety, 'SatrecMultiError')
    kb = X.variant(ety, 'InvalidTLEBadLineCount')
    for g in groups(ks):
        if len(g) == 1:
            e = Enum(ety, X.i(km), {km: (X.i(g[0]), Box(Enum(ety, X.i(kb), {kb: ()})))})
            errs.append((1, e))
            continue
        r = result(X, lines[g[2]], lines[g[3]], X.facts)
        ok = s.eq(r.tag, X.i(0))
        rec = r.p[0][0]
        if g[1] is not None:
            rec = named(X, rec, nameof(X, lines[g[1]], ks[g[1]]))
        recs.append((ok, rec))
        if ok == 1:
            continue
        errs.append((s.bnot(ok), Enum(ety, X.i(km), {km: (X.i(g[0]), Box(r.p[1][0]))})))
    if not isinstance(v, Agg) or len(v.f) != 2:
        return chk.ob('returns records and errors', False)
    a = chk.eq(X, 'records', v.f[0], Seq(None, recs), X.facts)
    b = chk.eq(X, 'errors', v.f[1], Seq(None, errs), X.facts)
    return a and b


def C13(chk):
    n = 5 if chk.deep else 4
    for k in range(n + 1):
        for kinds in itertools.product('12n', repeat=k):
            attempt(chk, ''.join(kinds), multi)
    for kinds in ('0120120', '012n12', '12012n12', '1212n120', 'n12n1212', '1_2', '__1__2_', 'n_1_2_n12', '_0_12__n12_',
                  '112', '1112', '12112', '122', '1221', 'n112', '2112', 'n1n2', '0n12', 'n12n', 'n120', 'nn12', '1n12',
                  '12' * 10, 'n12' * 7, '012' * 8, '12n12' * 4, 'n12' * 6 + '1', '12' * 9 + '1', '12' * 40, 'n12' * 25,
                  '_' * 30 + '12' * 10 + '_' * 30) + (('12' * 130, 'n12' * 90, '_' * 200 + '012' * 70) if chk.deep else ()):
        attempt(chk, kinds, multi)
    chk.prefix = ''


def attempt(chk, kinds, f):
    """Analyse with the loading of one set left uninterpreted; if that cannot establish it, in full."""
    n = len(chk.obs)
    lab = kinds if len(kinds) < 30 else '%s.. (%d lines)' % (kinds[:12], len(kinds))
    chk.prefix = 'lines %s: ' % (lab or '(none)')
    why = None
    try:
        if f(chk, kinds) or len(kinds) > 12:
            return
    except Exception as e:
        if len(kinds) > 12:
            raise
        why = e
    first = chk.obs[n:]
    del chk.obs[n:]
    chk.bad, chk.since = 0, None
    try:
        ok = f(chk, kinds, False)
    except Exception:
        ok = False
    if not ok:
        del chk.obs[n:]
        chk.obs += first
        raise why or rep.Enough()


def single(chk, kinds, inter=True):
    X = chk.ctx(max(40, 3 * len(kinds) + 10))
    s = X.s
    T, lines = document(X, kinds)
    if inter:
        X.I.intercept = {X.fn('io::twoline2satrec'): opaque}
    v, ns = X.I.run(X.fn('io::parse'), [Ref(T)], State(X.facts, {}))
    if not chk.returns(X, ns, X.facts):
        return False
    ks = [k for k in kinds if k != '_']
    ety = X.adt('io::SatrecParseError')
    want = None
    if len(ks) not in (2, 3):
        want = 'InvalidTLEBadLineCount'
    elif ks[-2:] != ['1', '2']:
        want = 'InvalidTLELineCheckFailed'
    if want:
        if not chk.eq(X, 'refused', v.tag, X.i(1), X.facts):
            return False
        e = v.p[1][0]
        return chk.eq(X, 'error is %s' % want, e.tag, X.i(X.variant(ety, want)), X.facts)
    r = result(X, lines[-2], lines[-1], X.facts)
    if len(ks) == 3:
        r = Enum(r.ty, r.tag, {0: (named(X, r.p[0][0], nameof(X, lines[0], ks[0])),), 1: r.p[1]})
    return chk.eq(X, 'result', v, r, X.facts)


def C14(chk):
    for k in range(5):
        for kinds in itertools.product('120n' if k < 4 else '12', repeat=k):
            attempt(chk, ''.join(kinds), single)
    for kinds in ('_12', '1_2', '12_', '_0_1_2_', '__n_1__2___', '_____', '1_1', 'n_2_1', '121212', 'n12n12', '12' * 30):
        attempt(chk, kinds, single)
    chk.prefix = ''


# ---------------------------------------------------------------- loading
def C27(chk):
    """A loaded record is the initialisation of its own elements."""
    X = chk.ctx()
    s, m, I = X.s, X.m, X.I
    L = [Ref(symtext(X, 'L1')), Ref(symtext(X, 'L2'))]
    v, ns = I.run(X.fn('io::twoline2satrec'), L, State(1, {}))
    p, np = I.run(X.fn('io::parse_satrec'), L, State(1, {}))
    if not (chk.returns(X, ns) and chk.returns(X, np)):
        return
    pok = s.eq(p.tag, X.i(0))
    el = p.p[0][0]
    g = lambda k: X.get(el, k)
    oty = X.adt('SGP4InitOptions')
    o = I.sym(oty, 'o')
    o = X.put(o, opsmode=X.enum('dpper::DpperOpsMode', 'I'), satn=g('satnum'),
              epoch=(m.v(g('jdsatepoch')) - F('2433281.5')).t, xbstar=g('bstar'), xecco=g('ecco'), xargpo=g('argpo'),
              xinclo=g('inclo'), xmo=g('mo'), xno=g('no'), xnodeo=g('nodeo'))
    r, n2 = I.run(X.fn('sgp4init::sgp4init'), [MRef(REC, ()), o], State(pok, {REC: el}))
    rok = s.eq(r.tag, X.i(0))
    both = s.band(pok, rok)
    chk.cond(X, 'loaded exactly when the lines parse and the state at epoch exists', s.eq(v.tag, X.i(0)), both)
    out = n2.c[REC]
    chk.eq(X, 'record', v.p[0][0], out, both)
    ety = X.adt('io::SatrecParseError')
    ki = X.variant(ety, 'Sgp4InitError')
    bad = s.bnot(rok)
    e = v.p[1][0]
    chk.eq(X, 'initialisation error reported', e.tag, X.i(ki), s.band(pok, bad))
    if ki in e.p:
        chk.eq(X, 'initialisation error kind', e.p[ki][0], r.p[1][0], s.band(pok, bad))
    chk.eq(X, 'parse error reported', e, p.p[1][0], s.bnot(pok))
    rec = v.p[0][0]
    i = X.get(rec, 'init')
    chk.eq(X, 'marked as initialised', i.tag, X.i(X.variant(i.ty, 'N')), both)
    om = X.get(rec, 'operationmode')
    chk.eq(X, 'improved operation mode', om.tag, X.i(X.variant(om.ty, 'I')), both)
    chk.eq(X, 'no error', X.get(rec, 'error'), X.i(0), both)
    chk.eq(X, 'no name', X.get(rec, 'name').tag, X.i(0), both)
    for k in ('satnum', 'epochyr', 'epochdays', 'jdsatepoch', 'ndot', 'nddot', 'bstar', 'inclo', 'nodeo', 'ecco', 'argpo',
              'mo', 'a', 'alta', 'altp'):
        chk.eq(X, k + ' as parsed', X.get(rec, k), X.get(el, k), both)


# ---------------------------------------------------------------- blank records
ELEMENT = ('satnum', 'epochyr', 'epochdays', 'ndot', 'nddot', 'bstar', 'inclo', 'nodeo', 'argpo', 'mo', 'no', 'ecco', 'a', 'alta', 'altp',
           'jdsatepoch')


def blank(chk, X, rec, but=()):
    """Every field of the record but those named is that of the blank record."""
    I, s = X.I, X.s
    for i, k in enumerate(X.fields(rec.ty)):
        if k in but:
            continue
        v = rec.f[i]
        if isinstance(v, Enum):
            what = I.types[v.ty].get('path', '').rsplit('::', 1)[-1]
            want = {'DpperInit': 'Y', 'DpperOpsMode': 'I', 'InitlMethod': 'N', 'Option': 'None'}[what]
            chk.eq(X, k, v.tag, X.i(X.variant(v.ty, want)))
        elif isinstance(v, Term) and v.sort in 'fi':
            chk.eq(X, k, v, s.const(0, v.sort))
        else:
            chk.eq(X, k, v, s.strc(''))


def C35(chk):
    X = chk.ctx()
    chk.prefix = 'blank record: '
    v, ns = X.I.run(X.fn('Satrec::zero'), [], State(1, {}))
    if chk.returns(X, ns):
        blank(chk, X, v)
    for label, kw in BASE + BLANKS:
        X = chk.ctx()
        chk.prefix = label + ': '
        ln = Lines(X, **kw)
        v, ns = parse_satrec(chk, X, ln.L)
        rec = accepted(chk, X, v, ns)
        if rec is not None:
            blank(chk, X, rec, ELEMENT)
    chk.prefix = ''
