"""Code-wide rules: effects, panics, termination, stale records."""
import re
from common import Missing, R
from terms import Term
from interp import MRef, Ref, State, Agg, Enum, Seq, B, Unsupported
from induct import Steps, NoFit
from prop_orbit import REC, record, fields, window, sgp4, windows, Case, Init, deep_cases, ELEMENTS
from prop_geo import instant, dates

ENTRY = ('doppler_factor::doppler_factor', 'ext::days2mdhms', 'ext::jday', 'ext::jday_datetime', 'Satrec::zero', 'dpper::dpper',
         'dscom::dscom', 'dsinit::dsinit', 'gstime::gstime', 'gstime::gstime_datetime', 'initl::initl', 'SGP4Error::code',
         'transforms::radians_to_degrees', 'transforms::degrees_to_radians', 'transforms::geodedic_to_ecf',
         'transforms::eci_to_geodedic', 'transforms::ecf_to_eci', 'transforms::eci_to_ecf', 'transforms::topocentric',
         'transforms::topocentric_to_look_angles', 'transforms::ecf_to_look_angles', 'Vec3::range', 'Vec3::add',
         'Vec3::subtract')


def anyargs(X, fn, **over):
    """Unconstrained arguments for a function."""
    I = X.I
    b = I.body(fn).b
    cells = {}
    args = []
    for i in range(1, b['argc'] + 1):
        ty, name = b['locals'][i]
        t = I.types[ty]
        name = name or 'a%d' % i
        if t['k'] == 'ref' and t.get('mut'):
            cell = ('arg', i - 1)
            cells[cell] = I.sym(t['to'], name)
            args.append(MRef(cell, ()))
        else:
            args.append(I.sym(ty, name))
    return args, cells


def integrator(chk, irez, sign):
    """dspace itself for any number of steps: context, inputs and steps; None when that has no closed form."""
    ban = set()
    for _ in range(4):
        X = chk.ctx(40)
        o = X.I.sym(X.adt('dspace::DspaceOptions'), 'o')
        o = X.put(o, irez=X.s.const(irez), atime=X.s.zero)
        steps = Steps(X, fields(X, o), irez, sign, X.m.v(X.get(o, 't')))
        steps.ban = ban
        X.I.hooks = [steps.hook]
        try:
            steps.result = X.I.run(X.fn('dspace::dspace'), [o], State(steps.pre.n, {}))
            again = steps.settle()
        except (NoFit, Unsupported):
            return None
        if not again - ban:
            return X, steps.reach, steps
        ban = ban | again
    return None


def runs(chk):
    """(label, context, precondition) of one analysis per entry point and class of inputs."""
    for e in ENTRY:
        X = chk.ctx(60)
        fn = X.fn(e)
        args, cells = anyargs(X, fn)
        X.I.run(fn, args, State(1, cells))
        yield fn, X, 1, None
    for ops in 'IA':
        i = Init(chk, ops)
        yield 'sgp4init mode %s' % ops, i.X, 1, None
        yield 'sgp4 near/%s' % ops, Case(chk, False, ops).X, 1, None
    for c in deep_cases(chk):
        yield 'sgp4 %s' % c.label, c.X, c.all, c.steps
    for irez in (0, 1, 2):
        full = irez > 0
        for sg in (1, -1) if irez else ():
            r = integrator(chk, irez, sg)
            full &= r is not None
            if r:
                yield ('dspace resonance %d, any number of steps %s' % (irez, 'forward' if sg > 0 else 'back'),) + r
        for w in (windows(chk, not full) if irez else [None]):
            X = chk.ctx(max(40, (w[0] if w else 0) + 12))
            o = X.I.sym(X.adt('dspace::DspaceOptions'), 'o')
            o = X.put(o, irez=X.s.const(irez), atime=X.s.zero)
            pre = window(X, X.m.v(X.get(o, 't')), *w) if w else 1
            X.I.run(X.fn('dspace::dspace'), [o], State(pre, {}))
            yield 'dspace resonance %d %s' % (irez, w or ''), X, pre, None
    for y, mo in [(1980, 10), (2024, 2)]:
        for deep in (False, True):
            X = chk.ctx(60)
            rec, S = record(X, deep, 'I', 0)
            T, jd = instant(X, y, mo)
            fn = X.fn('propogation::propogate_datetime')
            mut = X.I.types[X.I.body(fn).b['locals'][1][0]].get('mut')
            X.I.run(fn, [MRef(REC, ()) if mut else Ref(rec), T], State(1, {REC: rec}))
            yield 'propogate_datetime %d-%02d %s' % (y, mo, 'deep' if deep else 'near'), X, 1, None


def C26(chk):
    for label, X, pre, steps in runs(chk):
        chk.prefix = label + ': '
        n = len(chk.obs)
        chk.nopanic(X, pre)
        if len(chk.obs) == n:
            chk.ob('no panic site is reached', True)
    chk.prefix = ''


def C23(chk):
    for label, X, pre, steps in runs(chk):
        chk.prefix = label + ': '
        n = len(chk.obs)
        if steps:
            steps.ends(chk)
        chk.noloop(X, pre)
        if any(not o[1] for o in chk.obs[n:]):
            break
        if len(chk.obs) == n:
            chk.ob('every loop ends', True)
    chk.prefix = ''


# ---------------------------------------------------------------- effects
EFFECT = re.compile(r'^(std::(env|fs|io|net|os|process|thread|time|sync|random|panic)\b|std::hash::random|std::collections::hash'
                    r'|core::(cell|sync)\b|core::ptr::(read|write)_volatile|alloc::(rc|sync)\b|chrono::(offset::)?local'
                    r'|std::hash|rand)|::(now|today)$|::(expose_provenance|addr)$')


def C09(chk):
    d = chk.dump
    for p, s in sorted(d['statics'].items()):
        if s is None:
            continue
        chk.ob('static %s is immutable' % p, not s['mut'] and s['freeze'] and not s['thread_local'], '%s (%s)' % (p, s.get('span')),
               'mutable, interior-mutable or thread-local state')
    for sp in d['unsafe_blocks']:
        chk.ob('no unsafe code', False, sp, 'unsafe block')
    chk.ob('no unsafe blocks', not d['unsafe_blocks'])
    for p, a in sorted(d['auto'].items()):
        chk.ob('%s can be sent between threads' % p, a.get('send'), p)
        chk.ob('%s can be shared between threads' % p, a.get('sync') and a.get('freeze'), p)
    n = 0
    for name, b in sorted(d['bodies'].items()):
        if not b or not b['local']:
            continue
        if b.get('unsafe'):
            chk.ob('%s is not unsafe' % name, False, name)
        bad = []
        for bl in b['blocks']:
            for st in bl['s']:
                if 'PointerExpose' in str(st[:4]) or 'thread_local' in str(st[:3]).lower():
                    bad.append((str(st[0]), st[-1]))
            t = bl['t']
            if isinstance(t, dict) and t.get('t') == 'call':
                f = t['f']
                n += 1
                if f[0] == 'const' and isinstance(f[1], dict) and f[1].get('k') == 'fn':
                    c = f[1]['callee']
                    q = c['def']
                    if c.get('crate') != d['crate'] and (EFFECT.search(q) or EFFECT.search(c.get('path') or '')):
                        bad.append((q, bl['sp']))
        for q, sp in bad:
            chk.ob('%s has no effect besides its result' % name, False, '%s (%s)' % (name, sp), 'calls %s' % q)
        if not bad:
            chk.ob('%s has no effect besides its result' % name, True)
    chk.notes.setdefault('fns', set()).update(x for x, b in d['bodies'].items() if b and b['local'])
    chk.notes['calls'] = n
    chk.samples.append('%d call sites of local functions examined' % n)


# ---------------------------------------------------------------- stale records
CATALOGUE = ('name', 'satnum', 'epochyr', 'epochdays', 'jdsatepoch', 'ndot', 'nddot', 'a', 'alta', 'altp')


def C28(chk):
    """What initialisation stores, and propagations from it, do not depend on what the record held before."""
    for ops in 'IA':
        X = chk.ctx(40)
        s, m, I = X.s, X.m, X.I
        o = I.sym(X.adt('SGP4InitOptions'), 'o')
        o = X.put(o, opsmode=X.enum('dpper::DpperOpsMode', ops))
        ty = X.adt('io::Satrec')
        fn = X.fn('sgp4init::sgp4init')
        chk.prefix = 'mode %s: ' % ops
        r = []
        base = I.sym(ty, 'p')
        for nm in ('p', 'q'):
            rec = I.sym(ty, nm)
            # fields that initialisation leaves to its caller
            rec = X.put(rec, **{k: X.get(base, k) for k in CATALOGUE})
            v, ns = I.run(fn, [MRef(REC, ()), o], State(1, {REC: rec}))
            if not chk.returns(X, ns):
                return
            r.append((v, ns.c[REC]))
        (v, a), (w, b) = r
        chk.eq(X, 'result', v, w)
        for k in ELEMENTS:
            chk.eq(X, 'record.' + k, X.get(a, k), X.get(b, k))
        for k in X.fields(ty):
            if k not in CATALOGUE and k not in ELEMENTS:
                chk.eq(X, 'record.%s once initialised' % k, X.get(a, k), X.get(b, k), s.eq(v.tag, X.i(0)))
        meth = X.get(a, 'method')
        deep = s.eq(meth.tag, X.i(X.variant(meth.ty, 'D')))
        irez = m.v(X.get(a, 'irez'))
        t = m.v(s.var('t'))
        ok = s.eq(v.tag, X.i(0))
        cases = [('near', s.bnot(deep)), ('deep', s.band(deep, irez.eq(0).n))]
        for w_ in ((0, 1), (1, -1)):
            cases.append(('resonant %s' % (w_,), s.band(s.band(deep, s.bnot(irez.eq(0).n)), window(X, t, *w_))))
        reso = s.band(s.band(deep, s.bnot(irez.eq(0).n)), ok)
        for k in (1, 2):
            for sg in (1, -1):
                cases.append(('resonance %d, any number of steps %s' % (k, 'forward' if sg > 0 else 'back'),
                              Steps(X, fields(X, a), k, sg, t, '%d%+d' % (k, sg))))
        for lab, care in cases:
            steps = None
            if isinstance(care, Steps):
                steps = care
                steps.extra(s.band(reso, irez.eq(steps.irez).n))
                care = steps.pre.n
            care = s.band(care, ok)
            try:
                va, na = sgp4(X, a, t.t, care, steps)
                vb, nb = sgp4(X, b, t.t, care, steps)
                if steps:
                    if steps.settle() or steps.bad:
                        raise NoFit('later propagation')
                    care = steps.care
            except (NoFit, Unsupported) as e:
                if not steps:
                    raise
                chk.samples.append('%s%s not decided (%s)' % (chk.prefix, lab, e))
                continue
            if chk.returns(X, na, care, 'later propagation, %s, returns' % lab) and chk.returns(X, nb, care, 'later propagation, %s, returns' % lab):
                chk.eq(X, 'later propagation, %s' % lab, va, vb, care)
    chk.prefix = ''
