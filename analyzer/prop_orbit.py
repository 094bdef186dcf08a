"""Checks of the orbital model: initialisation, propagation, errors, history independence."""
from common import Missing, R, C
from terms import Term
from interp import MRef, Ref, State, Agg, Enum, Unsupported
from induct import Steps, NoFit

REC = ('arg', 0)
ELEMS = ('epoch', 'xbstar', 'xecco', 'xargpo', 'xinclo', 'xmo', 'xno', 'xnodeo')


def record(X, deep, ops='I', irez=0, simp=None, name='s'):
    """A symbolic initialised record of the class, with the invariants that initialisation establishes
    (they are themselves obligations of the initialisation checks), and its float fields."""
    s, I, m = X.s, X.I, X.m
    ty = X.adt('io::Satrec')
    rec = I.sym(ty, name)
    rec = X.put(rec, method=X.enum('initl::InitlMethod', 'D' if deep else 'N'),
                operationmode=X.enum('dpper::DpperOpsMode', ops), init=X.enum('dpper::DpperInit', 'N'))
    if deep:
        rec = X.put(rec, irez=s.const(irez), isimp=X.i(1), atime=s.zero)
        if irez:
            rec = X.put(rec, xli=X.get(rec, 'xlamo'), xni=X.get(rec, 'no'))
        else:
            rec = X.put(rec, xli=s.zero, xni=s.zero)
    elif simp is not None:
        rec = X.put(rec, isimp=X.i(simp))
    return rec, fields(X, rec)


def fields(X, rec):
    return R({f: X.m.v(X.get(rec, f)) for f in X.fields(rec.ty)
              if isinstance(X.get(rec, f), Term) and X.get(rec, f).sort == 'f'})


def window(X, t, k, sign):
    """Minutes for which the resonance integrator makes exactly k whole steps in direction sign."""
    if sign > 0:
        return ((t >= 720 * k) & (t < 720 * (k + 1))).n
    return ((t <= -720 * k) & (t > -720 * (k + 1))).n


def sgp4(X, rec, t, pre=1, steps=None):
    st = State(pre, {REC: rec})
    X.I.hooks = [steps.hook] if steps else []
    try:
        return X.I.run(X.fn('propogation::sgp4::sgp4'), [MRef(REC, ()), t], st)
    finally:
        X.I.hooks = []


class Case:
    """One class of records and times: the program's result and the theory's."""

    def __init__(self, chk, deep, ops='I', irez=0, win=None, simp=None, ban=()):
        anyk = win is not None and win[0] == 'any'
        self.X = X = chk.ctx(max(40, (win[0] if win and not anyk else 0) + 12))
        m, s = X.m, X.s
        self.label = ('deep' if deep else 'near') + ('/%s' % ops) + ('/resonance %d' % irez if irez else '') + \
            (anyk and '/any number of steps %s' % ('forward' if win[1] > 0 else 'back') or
             '/window %+d' % (win[1] * (win[0] + 1)) if win else '') + ('' if simp is None else '/simple=%d' % simp)
        self.rec, self.S = record(X, deep, ops, irez, simp)
        full = m.false if deep else ~C(s, s.eq(X.get(self.rec, 'isimp'), X.i(1)))
        self.t = t = m.v(s.var('t'))
        self.pre = window(X, t, *win) if win and not anyk else 1
        self.steps = None
        self.all = self.pre
        if anyk:
            self.steps = Steps(X, self.S, irez, win[1], t)
            self.steps.ban = set(ban)
            self.pre = self.steps.pre.n
        self.v, self.ns = sgp4(X, self.rec, t.t, self.pre, self.steps)
        if anyk:
            self.pre = self.steps.care
            self.all = self.steps.reach
            self.retry = self.steps.settle()
            win = (self.steps.generic(0),)
        self.r = r = X.th.sgp4(self.S, t, deep, irez, m.true if ops == 'A' else m.false, win or 0, full)
        self.errs = [('Nm', 2, r.e_nm), ('Eccentricty', 1, r.e_ecc), ('Ep', 3, r.e_ep), ('Pl', 4, r.e_pl),
                     ('DecayCondition', 6, r.e_decay)]
        bad = m.false
        for _, _, c in self.errs:
            bad = bad | c
        self.ok = ~bad
        if self.ns is None:
            raise Missing('propagation never returns for %s' % self.label)

    def values(self, chk):
        X, s = self.X, self.X.s
        chk.prefix = self.label + ': '
        if self.steps:
            self.steps.report(chk)
        chk.returns(X, self.ns, self.pre)
        okc = s.eq(self.v.tag, X.i(0))
        care = s.band(s.band(self.pre, self.ok.n), okc)
        if not chk.ob('some state vector is returned', care != 0):
            return
        res = self.v.p[0][0]
        for nm, f in (('pos', 'position'), ('vel', 'velocity')):
            vec = X.get(res, f)
            for c in 'xyz':
                chk.eq(X, '%s.%s' % (f, c), X.get(vec, c), self.r[nm]['xyz'.index(c)].t, care)
        chk.prefix = ''

    def errors(self, chk):
        X, s = self.X, self.X.s
        chk.prefix = self.label + ': '
        if self.steps:
            self.steps.report(chk)
        chk.returns(X, self.ns, self.pre)
        okc = s.eq(self.v.tag, X.i(0))
        chk.cond(X, 'a state vector is returned exactly when the theory has one', okc, self.ok.n, self.pre)
        err = self.v.p.get(1, (None,))[0]
        ety = X.adt('sgp4::SGP4Error')
        out = self.ns.c[REC]
        code = X.get(out, 'error')
        free = 1
        for name, num, c in self.errs:
            here = s.band(free, c.n)
            free = s.band(free, s.bnot(c.n))
            care = s.band(self.pre, here)
            if care == 0:
                continue
            if isinstance(err, Enum):
                chk.eq(X, 'error kind is %s' % name, err.tag, X.i(X.variant(ety, name)), care)
            else:
                chk.ob('error kind is %s' % name, False, '', 'no error value')
            chk.eq(X, 'recorded code is %d for %s' % (num, name), code, X.i(num), care)
        chk.eq(X, 'recorded code is 0 on success', code, X.i(0), s.band(self.pre, self.ok.n))
        chk.prefix = ''


def anysteps(chk, ops, irez, sign):
    """The case of any number of integration steps, or None when the integration has no closed form."""
    ban = set()
    for _ in range(4):
        try:
            c = Case(chk, True, ops, irez, ('any', sign), ban=ban)
        except (NoFit, Unsupported) as e:
            chk.samples.append('resonance %d, %+d: any number of steps not decided (%s); enumerated windows only' % (irez, sign, e))
            return None
        if not c.retry - ban:
            return c
        ban |= c.retry
    return None


def windows(chk, more=False):
    """Windows of a given number of whole steps; more of them where the induction on steps does not apply."""
    q = [(0, 1), (0, -1), (1, 1), (1, -1), (2, 1), (2, -1), (3, 1), (3, -1), (4, 1), (4, -1), (14, 1), (19, -1)]
    if more:
        q += [(40, 1), (60, -1)]
    if chk.deep:
        q += [(k, sg) for k in range(2, 64) for sg in (1, -1)]
        q += [(200, 1), (300, -1)]
    return list(dict.fromkeys(q))


def C01(chk):
    for ops in 'IA':
        Case(chk, False, ops).values(chk)


def deep_cases(chk, irezs=(0, 1, 2)):
    for ops in 'IA':
        if 0 in irezs:
            yield Case(chk, True, ops, 0)
        for irez in (1, 2):
            if irez in irezs:
                done = [c for c in [anysteps(chk, ops, irez, sg) for sg in (1, -1)] if c]
                for c in done:
                    yield c
                for w in windows(chk, len(done) < 2):
                    if ops == 'A' and not chk.deep and w[0] > 1:
                        continue
                    yield Case(chk, True, ops, irez, w)


def C02(chk):
    for c in deep_cases(chk):
        c.values(chk)


# ---------------------------------------------------------------- initialisation
class Init:
    def __init__(self, chk, ops, stale=True):
        self.X = X = chk.ctx(40)
        s, I, m = X.s, X.I, X.m
        self.ops = ops
        self.label = 'mode %s' % ops
        o = I.sym(X.adt('SGP4InitOptions'), 'o')
        o = X.put(o, opsmode=X.enum('dpper::DpperOpsMode', ops))
        g = lambda k: m.v(X.get(o, k))
        self.O = R(epoch=g('epoch'), bstar=g('xbstar'), ecco=g('xecco'), argpo=g('xargpo'), inclo=g('xinclo'),
                   mo=g('xmo'), no=g('xno'), nodeo=g('xnodeo'))
        self.S = X.th.sgp4init(self.O, m.true if ops == 'A' else m.false)
        self.rec = I.sym(X.adt('io::Satrec'), 's')
        self.v, self.ns = I.run(X.fn('sgp4init::sgp4init'), [MRef(REC, ()), o], State(1, {REC: self.rec}))
        if self.ns is None:
            raise Missing('initialisation never returns')
        self.out = self.ns.c[REC]
        self.live = self.S.live.n
        self.near = s.band(self.live, (~self.S.deep).n)
        self.deep = s.band(self.live, self.S.deep.n)

    def field(self, chk, k, want, care):
        X = self.X
        chk.eq(X, k, X.get(self.out, k), want.t, care)

    def kind(self, chk):
        X, s = self.X, self.X.s
        m = X.get(self.out, 'method')
        chk.cond(X, 'deep-space model exactly for periods of 225 minutes or more',
                 s.eq(m.tag, X.i(X.variant(m.ty, 'D'))), self.S.deep.n, self.live)


NEAR = ('no', 'gsto', 'bstar', 'ecco', 'argpo', 'inclo', 'mo', 'nodeo', 'eta', 'cc1', 'cc4', 'cc5', 'mdot', 'argpdot',
        'nodedot', 'omgcof', 'xmcof', 'nodecf', 't2cof', 'delmo', 'sinmao', 'd2', 'd3', 'd4', 't3cof', 't4cof', 't5cof')
NEARONLY = ('con41', 'x1mth2', 'xlcof', 'aycof', 'x7thm1')


def C03(chk):
    for ops in 'IA':
        i = Init(chk, ops)
        X, s = i.X, i.X.s
        chk.prefix = i.label + ': '
        chk.returns(X, i.ns)
        i.kind(chk)
        chk.cond(X, 'simplified drag model for perigee below 220 km and deep space',
                 s.eq(X.get(i.out, 'isimp'), X.i(1)), i.S.simp.n, i.live)
        for k in NEAR:
            i.field(chk, k, i.S[k], i.live)
        for k in NEARONLY:
            i.field(chk, k, i.S[k], i.near)
        chk.prefix = ''


def C04(chk):
    for ops in 'IA':
        i = Init(chk, ops)
        X, s = i.X, i.X.s
        chk.prefix = i.label + ': '
        i.kind(chk)
        for k in ('no', 'gsto'):
            i.field(chk, k, i.S[k], i.deep)
        for k, v in i.S.luni.items():
            i.field(chk, k, v, i.deep)
        chk.prefix = ''


def C05(chk):
    for ops in 'IA':
        i = Init(chk, ops)
        chk.prefix = i.label + ': '
        i.kind(chk)
        for k, v in i.S.reso.items():
            i.field(chk, k, v, i.deep)
        chk.prefix = ''
    for c in deep_cases(chk, (1, 2)):
        c.values(chk)


def C06(chk):
    """The periodic corrections as a function of the record and the mean elements."""
    for ops in 'IA':
        for init in 'NY':
            X = chk.ctx(40)
            s, I, m = X.s, X.I, X.m
            rec, S = record(X, True, ops)
            o = I.sym(X.adt('dpper::DpperOptions'), 'o')
            o = X.put(o, opsmode=X.enum('dpper::DpperOpsMode', ops), init=X.enum('dpper::DpperInit', init))
            names = ('ep', 'inclp', 'nodep', 'argpp', 'mp')
            a = [m.v(X.get(o, k)) for k in names]
            if init == 'N':
                want = X.th.dpper(S, m.true if ops == 'A' else m.false, S.t, *a)
            else:
                want = a
            v, ns = I.run(X.fn('dpper::dpper'), [Ref(rec), o], State(1, {}))
            chk.prefix = 'mode %s, %s: ' % (ops, 'applied' if init == 'N' else 'initialising')
            chk.returns(X, ns)
            for k, w in zip(names, want):
                chk.eq(X, k, X.get(v, k), w.t)
    chk.prefix = ''
    for ops in 'IA':
        Case(chk, True, ops, 0).values(chk)


def C07(chk):
    for ops in 'IA':
        for simp in (None,):
            Case(chk, False, ops, simp=simp).errors(chk)
    for c in deep_cases(chk):
        c.errors(chk)
    X = chk.ctx()
    ty = X.adt('sgp4::SGP4Error')
    for name, num in (('Eccentricty', 1), ('Nm', 2), ('Ep', 3), ('Pl', 4), ('DecayCondition', 6)):
        k = X.variant(ty, name)
        v, ns = X.I.run(X.fn('SGP4Error::code'), [Ref(Enum(ty, X.i(k), {k: ()}))], State(1, {}))
        chk.ob('numeric code of %s is %d' % (name, num), ns is not None and isinstance(v, Term) and v.val == num,
               'SGP4Error::code', '' if v is None else 'is %s' % v)
    # initialisation reports the error of the state at epoch, otherwise that state
    for ops in 'IA':
        i = Init(chk, ops)
        X = i.X
        chk.prefix = 'initialisation, mode %s: ' % ops
        v2, n2 = sgp4(X, i.out, X.s.zero, i.ns.pc)
        chk.eq(X, 'result is the state at epoch', i.v, v2, i.live)
        chk.eq(X, 'recorded code', X.get(i.out, 'error'), X.get(n2.c[REC], 'error'), i.live)
        chk.prefix = ''


ELEMENTS = ('name', 'satnum', 'epochyr', 'epochdays', 'jdsatepoch', 'ndot', 'nddot', 'bstar', 'inclo', 'nodeo', 'ecco',
            'argpo', 'mo', 'no', 'a', 'alta', 'altp', 'operationmode', 'method')


def C08(chk):
    """A propagation does not depend on the propagations made before it with the same record."""
    cases = [(False, 'I', 0, None, None), (False, 'A', 0, None, None), (True, 'I', 0, None, None),
             (True, 'A', 0, None, None)]
    ws = [(0, 1), (1, -1), (2, 1)]
    for irez in (1, 2):
        anys = [(('any', a), ('any', b)) for a in (1, -1) for b in (1, -1)]
        anys += [(('any', a), w) for a in (1, -1) for w in ((0, 1), (0, -1), (2, 1), (2, -1))]
        anys += [(w, ('any', a)) for a in (1, -1) for w in ((0, 1), (0, -1), (2, 1), (2, -1))]
        full = True
        for w1, w2 in anys:
            full &= history(chk, True, 'I', irez, w1, w2)
        v = ws + ([] if full else [(5, 1), (7, -1)])
        if chk.deep:
            v += [(0, -1), (1, 1), (3, 1), (2, -1), (5, -1), (12, 1), (12, -1)]
        for w1 in v:
            for w2 in v:
                cases.append((True, 'I', irez, w1, w2))
    for c in cases:
        history(chk, *c)
    chk.prefix = ''


def history(chk, deep, ops, irez, w1, w2):
    """Propagating to a time in w2 after a time in w1; false when that could not be decided (induction only)."""
    X = chk.ctx(40)
    m, s = X.m, X.s
    rec, S = record(X, deep, ops, irez)
    t1, t2 = m.v(s.var('t1')), m.v(s.var('t2'))
    lab = lambda w: 'any number of steps %s' % ('forward' if w[1] > 0 else 'back') if w[0] == 'any' else str(w)
    chk.prefix = ('deep' if deep else 'near') + '/%s' % ops + ('/resonance %d/%s then %s' % (irez, lab(w1), lab(w2)) if irez
                                                              else '') + ': '
    steps = [Steps(X, S, irez, w[1], t, str(i)) if w and w[0] == 'any' else None for i, (t, w) in
             enumerate(((t1, w1), (t2, w2)))]
    try:
        pre = 1
        for i, (t, w) in enumerate(((t1, w1), (t2, w2))):
            if steps[i]:
                steps[i].extra(pre)
            pre = s.band(pre, steps[i].pre.n if steps[i] else window(X, t, *w) if w else 1)
            if i == 0:
                v1, n1 = sgp4(X, rec, t1.t, pre, steps[0])
                if steps[0]:
                    if steps[0].settle() or steps[0].bad:
                        raise NoFit('first propagation')
                    pre = steps[0].care
                if not chk.returns(X, n1, pre):
                    return False
        va, na = sgp4(X, n1.c[REC], t2.t, pre, steps[1])
        if steps[1] and (steps[1].settle() or steps[1].bad):
            raise NoFit('second propagation')
        vb, nb = sgp4(X, rec, t2.t, pre, steps[1])
        if steps[1]:
            if steps[1].bad:
                raise NoFit('second propagation')
            pre = steps[1].care
    except (NoFit, Unsupported) as e:
        if not (steps[0] or steps[1]):
            raise
        chk.samples.append('%snot decided (%s)' % (chk.prefix, e))
        return False
    chk.returns(X, na, pre)
    chk.eq(X, 'second result', va, vb, pre)
    for f in ('error', 't'):
        chk.eq(X, 'record.' + f, X.get(na.c[REC], f), X.get(nb.c[REC], f), pre)
    for f in ELEMENTS:
        chk.eq(X, 'record.%s kept' % f, X.get(n1.c[REC], f), X.get(rec, f), pre)
    return True
