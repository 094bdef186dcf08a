"""The stages of the theory used on their own, and values as values (copies, equality)."""
from common import R
import rep

from interp import MRef, Ref, State, B
from prop_orbit import fields, window
from prop_code import integrator


def run(X, chk, fn, o, pre=1):
    b = X.I.body(X.fn(fn)).b
    ty = X.I.types[b['locals'][1][0]]
    v, ns = X.I.run(X.fn(fn), [Ref(o) if ty['k'] == 'ref' else o], State(pre, {}))
    chk.returns(X, ns, pre)
    return v if ns is not None else None


def opts(X, path, **kw):
    o = X.I.sym(X.adt(path), 'o')
    o = X.put(o, **kw)
    return o, fields(X, o)


def initl(chk):
    for ops in 'IA':
        X = chk.ctx()
        o, O = opts(X, 'initl::InitlOptions', opsmode=X.enum('dpper::DpperOpsMode', ops))
        chk.prefix = 'initl, mode %s: ' % ops
        v = run(X, chk, 'initl::initl', o)
        if v is None:
            continue
        w = X.th.initl(O.ecco, O.inclo, O.no, O.epoch, X.m.true if ops == 'A' else X.m.false)
        w.ainv = 1 / w.ao
        for k in ('no', 'ainv', 'ao', 'con41', 'con42', 'cosio', 'cosio2', 'eccsq', 'omeosq', 'posq', 'rp', 'rteosq', 'sinio', 'gsto'):
            chk.eq(X, k, X.get(v, k), w[k].t)


SEVEN = tuple('s%d' % i for i in range(1, 8))
ZS = ('z1', 'z2', 'z3', 'z11', 'z12', 'z13', 'z21', 'z22', 'z23', 'z31', 'z32', 'z33')


def dscom(chk):
    X = chk.ctx()
    o, O = opts(X, 'dscom::DscomOptions')
    chk.prefix = 'dscom: '
    v = run(X, chk, 'dscom::dscom', o)
    if v is None:
        return
    w = X.th.dscom(O.epoch, O.ep, O.argpp, O.inclp, O.nodep, O.np, O.tc)
    want = {k: x.t for k, x in w.items() if k not in ('sun', 'moon')}
    for k in SEVEN + ZS:
        want[k], want['s' + k] = w.moon[k].t, w.sun[k].t
    for k in ('peo', 'pgho', 'pho', 'pinco', 'plo'):
        want[k] = X.s.zero
    for k in sorted(want):
        if k in X.fields(v.ty):
            chk.eq(X, k, X.get(v, k), want[k])
        else:
            chk.samples.append(chk.prefix + 'no output %s' % k)


HALF = ('d2201', 'd2211', 'd3210', 'd3222', 'd4410', 'd4422', 'd5220', 'd5232', 'd5421', 'd5433')
DAY = ('del1', 'del2', 'del3')
BOTH = ('xlamo', 'xfact', 'xli', 'xni', 'atime')
RATES = ('dedt', 'didt', 'dmdt', 'dnodt', 'domdt')


def dsinit(chk):
    """With every option on its own; if that does not hold, with the options that repeat others (squares, the
    sine and cosine of an angle) consistent with them, which is all that a caller can mean."""
    n = len(chk.obs)
    why = None
    try:
        dsinit_on(chk, False)
    except rep.Enough as e:
        why = e
    if why is None and all(ob[1] for ob in chk.obs[n:]):
        return
    first = chk.obs[n:]
    del chk.obs[n:]
    bad, chk.bad, chk.since = chk.bad, 0, None
    try:
        dsinit_on(chk, True)
    except Exception:
        ok = False
    else:
        ok = all(ob[1] for ob in chk.obs[n:])
    if not ok:
        chk.obs[n:] = first
        chk.bad = bad
        if why is not None:
            raise why


def dsinit_on(chk, tied):
    X = chk.ctx()
    m, s = X.m, X.s
    o, O = opts(X, 'dsinit::DsinitOptions')
    if tied:
        o, O = opts(X, 'dsinit::DsinitOptions', emsq=(O.em * O.em).t, eccsq=(O.ecco * O.ecco).t, sinim=m.sin(O.inclm).t,
                    cosim=m.cos(O.inclm).t)
    chk.prefix = 'dsinit: '
    v = run(X, chk, 'dsinit::dsinit', o)
    if v is None:
        return
    body = lambda p: R({k: O[p + k] for k in ('s1', 's2', 's3', 's4', 's5', 'z1', 'z3', 'z11', 'z13', 'z21', 'z23', 'z31', 'z33')})
    d = R(sun=body('s'), moon=body(''), sinim=O.sinim, cosim=O.cosim, emsq=O.emsq)
    w = X.th.dsinit(d, O, O.eccsq, O.xpidot, O.nm, O.em, O.inclm, O.tc)
    chk.eq(X, 'irez', X.get(v, 'irez'), w.irez.t)
    for k in RATES:
        chk.eq(X, k, X.get(v, k), w[k].t)
    for k, r in (('em', w.dedt), ('inclm', w.didt), ('argpm', w.domdt), ('nodem', w.dnodt), ('mm', w.dmdt)):
        chk.eq(X, k, X.get(v, k), (O[k] + r * O.t).t)
    chk.eq(X, 'dndt', X.get(v, 'dndt'), s.zero)
    chk.eq(X, 'nm, resonant', X.get(v, 'nm'), O.no.t, (w.half | w.day1).n)
    chk.eq(X, 'nm, not resonant', X.get(v, 'nm'), O.nm.t, (~(w.half | w.day1)).n)
    one = (w.day1 & ~w.half).n
    for ks, care in ((HALF, w.half.n), (DAY, one), (BOTH, (w.half | w.day1).n)):
        for k in ks:
            chk.eq(X, k, X.get(v, k), w[k].t, care)


def state(X, S, irez, k, sign, t0=None):
    """Longitude, motion and time after k steps from epoch."""
    m = X.m
    st = (S.xlamo, S.no, m.c(0))
    d = m.c(720 * sign)
    for _ in range(k):
        xndt, xldot, xnddt = X.th.resonance_rates(S, irez, *st)
        st = (st[0] + xldot * d + xndt * 259200, st[1] + xndt * d + xnddt * 259200, st[2] + d)
    return st


def outcome(X, chk, v, O, irez, st, care):
    """What dspace returns when st is the state after the last whole step."""
    (em, argpm, inclm, mm, nodem, nm), _ = X.th.dspace(O, irez, O.t, O.em, O.argpm, O.inclm, O.mm, O.nodem,
                                                       (st,) if irez else 0, O.tc)
    if not irez:
        nm = O.nm
    want = dict(em=em, argpm=argpm, inclm=inclm, mm=mm, nodem=nodem, nm=nm, dndt=nm - O.no if irez else X.m.c(0))
    if st:
        want.update(xli=st[0], xni=st[1], atime=st[2])
    for k, w in want.items():
        chk.eq(X, k, X.get(v, k), w.t, care)


def dspace(chk):
    for irez in (0, 1, 2):
        full = irez > 0
        for sg in (1, -1) if irez else ():
            chk.prefix = 'dspace, resonance %d, any number of steps %s: ' % (irez, 'forward' if sg > 0 else 'back')
            r = integrator(chk, irez, sg)
            full &= r is not None
            if r is None:
                chk.samples.append(chk.prefix + 'not decided; enumerated windows only')
                continue
            X, _, steps = r
            v, ns = steps.result
            steps.report(chk)
            if chk.returns(X, ns, steps.care):
                outcome(X, chk, v, steps.S, irez, steps.generic(0), steps.care)
        n = (8 if chk.deep else 3) if full or not irez else 12
        for w in [(k, sg) for k in range(n) for sg in (1, -1)] if irez else [None]:
            X = chk.ctx(40)
            o, O = opts(X, 'dspace::DspaceOptions', irez=X.s.const(irez), atime=X.s.zero)
            pre = window(X, O.t, *w) if w else 1
            chk.prefix = 'dspace, resonance %d%s: ' % (irez, ', window %+d' % (w[1] * (w[0] + 1)) if w else '')
            v = run(X, chk, 'dspace::dspace', o, pre)
            if v is not None:
                outcome(X, chk, v, O, irez, state(X, O, irez, *w) if w else None, pre)
        # from the state an earlier call ended with
        for k in ((1, 2, 3) if chk.deep else (1, 2)) if irez else ():
            for sg in (1, -1):
                for w in [(j, g) for j in range(k + 2) for g in (1, -1)]:
                    X = chk.ctx(40)
                    o, O = opts(X, 'dspace::DspaceOptions', irez=X.s.const(irez))
                    st = state(X, O, irez, k, sg)
                    o = X.put(o, xli=st[0].t, xni=st[1].t, atime=st[2].t)
                    pre = window(X, O.t, *w)
                    chk.prefix = 'dspace, resonance %d, after %+d steps, window %+d: ' % (irez, k * sg, w[1] * (w[0] + 1))
                    v = run(X, chk, 'dspace::dspace', o, pre)
                    if v is not None:
                        outcome(X, chk, v, O, irez, state(X, O, irez, *w), pre)


def C33(chk):
    for f in (initl, dscom, dsinit, dspace):
        f(chk)
    chk.prefix = ''


# ---------------------------------------------------------------- values
def methods(X, trait, names):
    """(body name, method, type) of the local implementations of a trait."""
    out = []
    for k, b in X.I.d['bodies'].items():
        if b.get('local') and k.startswith('<') and ' as %s>::' % trait in k:
            m = k.rsplit('::', 1)[1]
            if m in names:
                out.append((k, m))
    return sorted(out)


def inner(I, args, st, destty):
    n = I.models.equal(args[0], args[1], st)
    return None if n is None else (B(n), st)


def C34(chk):
    X = chk.ctx()
    for fn, m in methods(X, 'core::clone::Clone', ('clone', 'clone_from')):
        X = chk.ctx()
        I = X.I
        ty = I.types[I.body(fn).b['locals'][1][0]]['to']
        v = I.sym(ty, 'a')
        chk.prefix = 'copy of a %s: ' % fn[1:].split(' as ')[0]
        if m == 'clone':
            r, ns = I.run(fn, [Ref(v)], State(1, {}))
        else:
            cell = ('arg', 0)
            ty = I.types[I.body(fn).b['locals'][2][0]]['to']
            _, ns = I.run(fn, [MRef(cell, ()), Ref(v)], State(1, {cell: I.sym(ty, 'b')}))
            r = ns.c[cell] if ns else None
        if chk.returns(X, ns):
            chk.eq(X, 'the original', r, v)
        chk.nopanic(X)
    for fn, m in methods(X, 'core::cmp::PartialEq', ('eq', 'ne')):
        X = chk.ctx()
        I, s = X.I, X.s
        tys = [I.types[I.body(fn).b['locals'][i][0]]['to'] for i in (1, 2)]
        chk.prefix = '%s of %s: ' % ('equality' if m == 'eq' else 'inequality', fn[1:].split(' as ')[0])
        if tys[0] != tys[1]:
            chk.samples.append(chk.prefix + 'compares different types; not decided')
            continue
        # a value inside a box of its own type stays one unknown: equal or not, as the inner comparison finds (induction on depth)
        I.boxing.extend(i for i, t in enumerate(I.types) if t and t.get('path') == 'alloc::boxed::Box' and t['args'][0] == tys[0])
        a, b = I.sym(tys[0], 'a'), I.sym(tys[0], 'b')
        I.intercept = {fn: inner}
        st = State(1, {})
        want = X.I.models.equal(a, b, st)
        if want is None:
            chk.ob('content of the type is understood', False, fn)
            continue
        r, ns = I.run(fn, [Ref(a), Ref(b)], st)
        if chk.returns(X, ns):
            chk.eq(X, 'exactly when every field is equal', r, B(want if m == 'eq' else s.bnot(want)))
        chk.nopanic(X)
        # a value equals itself
        if m == 'eq':
            r, ns = I.run(fn, [Ref(a), Ref(a)], State(1, {}))
            if ns is not None:
                chk.eq(X, 'a value equals itself', r, B(1))
    chk.prefix = ''
