"""Checks of time scales, frames, helpers, constants and code-wide rules."""
import datetime
import math
import struct
from fractions import Fraction as F
from common import Missing, R
from terms import Term
from interp import MRef, Ref, State, Agg, Enum, Seq, B, Unsupported
from induct import Steps, NoFit
from prop_orbit import REC, record, window, sgp4, windows
from prop_parse import Lines, parse_satrec, accepted


def jd0(y, m, d=1):
    """Julian date of 0 h on a Gregorian date."""
    return datetime.date(y, m, d).toordinal() + F('1721424.5')


def call(X, fn, args, pre=1, cells=None):
    return X.I.run(X.fn(fn), args, State(pre, cells or {}))


def vec(X, name):
    v = X.I.sym(X.adt('Vec3'), name)
    return v, [X.m.v(X.get(v, c)) for c in 'xyz']


def geodetic(X, name):
    v = X.I.sym(X.adt('Geodedic'), name)
    return v, X.m.v(X.get(v, 'longitude')), X.m.v(X.get(v, 'latitude')), X.m.v(X.get(v, 'height'))


def members(chk, X, v, name, **want):
    for k, w in want.items():
        chk.eq(X, '%s.%s' % (name, k), X.get(v, k), w.t)


# ---------------------------------------------------------------- calendar and Julian dates
def C15(chk):
    names = ('month', 'day', 'hour', 'minute', 'second')
    for y in range(1957, 2057):
        X = chk.ctx()
        s, m = X.s, X.m
        chk.prefix = 'day of year %d: ' % y
        leap = y % 4 == 0
        U = 2 ** 52          # every double in the range is a whole multiple of 1 / U
        days = m.v(s.i2f(s.var('days', 'i', (U, (367 if leap else 366) * U - 1)))) / U
        pre = 1
        v, ns = call(X, 'ext::days2mdhms', [X.i(y), days.t], pre)
        if not chk.returns(X, ns, pre):
            continue
        day = m.floor(days)
        month, start, acc = m.c(1), m.c(0), 0
        for i, n in enumerate((31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30)):
            acc += n
            past = days >= acc + 1
            month = m.where(past, i + 2, month)
            start = m.where(past, acc, start)
        h = (days - day) * 24
        mi = (h - m.floor(h)) * 60
        want = (month, day - start, m.floor(h), m.floor(mi), (mi - m.floor(mi)) * 60)
        for k, w in zip(names, want):
            chk.eq(X, k, X.get(v, k), w.t, pre)
    for y in range(1901, 2100):
        X = chk.ctx()
        s, m = X.s, X.m
        chk.prefix = 'Julian date in %d: ' % y
        d, h, mi, sec, ms = [m.v(s.var(k)) for k in ('day', 'hour', 'minute', 'second', 'millisecond')]
        for mon in range(1, 13):
            v, ns = call(X, 'ext::jday', [s.const(y), s.const(mon), d.t, h.t, mi.t, sec.t, ms.t])
            if chk.returns(X, ns, name='month %d returns' % mon):
                chk.eq(X, 'month %d' % mon, v, (d - 1 + jd0(y, mon) + (h + (mi + (sec + ms / 1000) / 60) / 60) / 24).t)
    for y in range(1957, 2057):
        X = chk.ctx()
        chk.prefix = 'epoch of a set of %d: ' % y
        ln = Lines(X, yr='%02d' % (y % 100))
        v, ns = parse_satrec(chk, X, ln.L)
        rec = accepted(chk, X, v, ns)
        if rec is None:
            continue
        day = ln.num('day')
        pre = ((day >= 1) & (day < (367 if y % 4 == 0 else 366))).n
        chk.eq(X, 'epoch', X.get(rec, 'jdsatepoch'), (day - 1 + jd0(y, 1)).t, pre)
    chk.prefix = ''
    instants(chk, 'ext::jday_datetime', lambda X, jd: jd)


def dates(chk):
    return [(y, mo) for y in (range(1901, 2100) if chk.deep else range(1957, 2057)) for mo in range(1, 13)]


def instant(X, y, mo, name='time'):
    """A UTC instant of the month with unknown day of month and time of day, and its Julian date."""
    s, m, M = X.s, X.m, X.I.models
    T = s.var(name, 'o')
    last = (datetime.date(y + mo // 12, mo % 12 + 1, 1) - datetime.timedelta(1)).day
    day = s.var('day', 'i', (1, last))
    M.dates[T.id] = (y, mo, day)
    i = lambda k: m.v(s.i2f(M.chronofield(T, k)))
    jd = m.v(s.i2f(day)) - 1 + jd0(y, mo) + i('hour') / 24 + i('minute') / 1440 + \
        (i('second') + i('nanosecond') / 10 ** 9) / 86400
    return T, jd


def instants(chk, fn, want):
    for y, mo in dates(chk):
        X = chk.ctx()
        chk.prefix = '%s in %d-%02d: ' % (fn.split('::')[-1], y, mo)
        T, jd = instant(X, y, mo)
        v, ns = call(X, fn, [T])
        if chk.returns(X, ns):
            chk.eq(X, 'value', v, want(X, jd).t)
    chk.prefix = ''


def C16(chk):
    X = chk.ctx()
    s, m = X.s, X.m
    jd = m.v(s.var('jd'))
    v, ns = call(X, 'gstime::gstime', [jd.t])
    if chk.returns(X, ns):
        w = X.th.gstime(jd)
        chk.eq(X, 'sidereal angle', v, w.t)
    instants(chk, 'gstime::gstime_datetime', lambda X, jd: X.th.gstime(jd))


# ---------------------------------------------------------------- frames
def rot(m, p, g, sign):
    x, y, z = p
    c, sn = m.cos(g), m.sin(g) * sign
    return x * c + y * sn, y * c - x * sn, z


def C17(chk):
    X = chk.ctx()
    s, m = X.s, X.m
    v, p = vec(X, 'p')
    g = m.v(s.var('gmst'))
    a, n1 = call(X, 'transforms::eci_to_ecf', [Ref(v), g.t])
    b, n2 = call(X, 'transforms::ecf_to_eci', [Ref(v), g.t])
    if not (chk.returns(X, n1) and chk.returns(X, n2)):
        return
    for k, w in zip('xyz', rot(m, p, g, 1)):
        chk.eq(X, 'to Earth-fixed.' + k, X.get(a, k), w.t)
    for k, w in zip('xyz', rot(m, p, g, -1)):
        chk.eq(X, 'to inertial.' + k, X.get(b, k), w.t)
    c, n3 = call(X, 'transforms::ecf_to_eci', [Ref(a), g.t])
    d, n4 = call(X, 'transforms::eci_to_ecf', [Ref(b), g.t])
    if chk.returns(X, n3) and chk.returns(X, n4):
        for k, w in zip('xyz', p):
            chk.eq(X, 'there and back.' + k, X.get(c, k), w.t)
            chk.eq(X, 'back and forth.' + k, X.get(d, k), w.t)
    n = lambda u: sum(((m.v(X.get(u, k)) ** 2 for k in 'yz')), m.v(X.get(u, 'x')) ** 2)
    chk.eq(X, 'length kept to Earth-fixed', n(a).t, n(v).t)
    chk.eq(X, 'length kept to inertial', n(b).t, n(v).t)


A, BB = F('6378.137'), F('6356.7523142')
FL = (A - BB) / A
E2 = 2 * FL - FL * FL


def to_ecf(m, lon, lat, h):
    N = A / m.sqrt(1 - E2 * m.sin(lat) ** 2)
    return ((N + h) * m.cos(lat) * m.cos(lon), (N + h) * m.cos(lat) * m.sin(lon), (N * (1 - E2) + h) * m.sin(lat))


def C18(chk):
    X = chk.ctx()
    s, m = X.s, X.m
    gd, lon, lat, h = geodetic(X, 'g')
    v, ns = call(X, 'transforms::geodedic_to_ecf', [Ref(gd)])
    if chk.returns(X, ns):
        for k, w in zip('xyz', to_ecf(m, lon, lat, h)):
            chk.eq(X, 'Earth-fixed.' + k, X.get(v, k), w.t)
    X = chk.ctx()
    s, m = X.s, X.m
    p, (x, y, z) = vec(X, 'p')
    g = m.v(s.var('gmst'))
    v, ns = call(X, 'transforms::eci_to_geodedic', [Ref(p), g.t])
    if not chk.returns(X, ns):
        return
    lo = (m.atan2(y, x) - g) % m.twopi
    lo = m.where(lo < -m.pi, lo + m.twopi, m.where(lo > m.pi, lo - m.twopi, lo))
    r = m.sqrt(x * x + y * y)
    la, seq = m.atan2(z, r), []
    for _ in range(20):
        c = 1 / m.sqrt(1 - E2 * m.sin(la) ** 2)
        seq.append(la)
        la = m.atan2(z + A * E2 * c * m.sin(la), r)
    chk.eq(X, 'longitude', X.get(v, 'longitude'), lo.t)
    chk.eq(X, 'latitude', X.get(v, 'latitude'), la.t)
    ht = lambda q: r * m.cos(la) + z * m.sin(la) - A * m.sqrt(1 - E2 * m.sin(q) ** 2)
    alt = ht(la)      # the radius of curvature of the final latitude is as good as that of the last step
    got = X.get(v, 'height')
    chk.eq(X, 'height', got, got if got is alt.t else ht(seq[-1]).t)


def C19(chk):
    X = chk.ctx()
    s, m = X.s, X.m
    gd, lon, lat, h = geodetic(X, 'g')
    p, (x, y, z) = vec(X, 'p')
    ox, oy, oz = to_ecf(m, lon, lat, h)
    rx, ry, rz = x - ox, y - oy, z - oz
    sl, cl, so, co = m.sin(lat), m.cos(lat), m.sin(lon), m.cos(lon)
    S = sl * co * rx + sl * so * ry - cl * rz
    Ea = co * ry - so * rx
    Z = cl * co * rx + cl * so * ry + sl * rz
    v, ns = call(X, 'transforms::topocentric', [Ref(gd), Ref(p)])
    if chk.returns(X, ns):
        members(chk, X, v, 'topocentric', top_s=S, top_e=Ea, top_z=Z)
    v, ns = call(X, 'transforms::ecf_to_look_angles', [Ref(gd), Ref(p)])
    if chk.returns(X, ns):
        bearing(chk, X, v, 'look angles', S, Ea, Z)
    X = chk.ctx()
    m = X.m
    t = X.I.sym(X.adt('TopoCentric'), 't')
    S, Ea, Z = [m.v(X.get(t, k)) for k in ('top_s', 'top_e', 'top_z')]
    v, ns = call(X, 'transforms::topocentric_to_look_angles', [Ref(t)])
    if chk.returns(X, ns):
        bearing(chk, X, v, 'bearing', S, Ea, Z)


def bearing(chk, X, v, name, S, Ea, Z):
    m = X.m
    s = X.s
    rg = m.sqrt(S * S + Ea * Ea + Z * Z)
    members(chk, X, v, name, range=rg)
    # a side of a right triangle is no longer than the hypotenuse
    u = Z / rg
    fact = s.band(s.le(s.const(-1), u.t), s.le(u.t, s.const(1)))
    either(chk, X, name + '.elevation', X.get(v, 'elevation'),
           [m.asin(u), m.atan2(Z, m.sqrt(S * S + Ea * Ea))], fact)
    t = m.atan2(Ea, -S)
    either(chk, X, name + '.azimuth', X.get(v, 'azimuth'),
           [m.atan2(-Ea, S) + m.pi, m.where(t < 0, t + m.twopi, t), t % m.twopi], fact)


def either(chk, X, name, got, wants, fact=1):
    """Equal to one of several forms of the same quantity."""
    for w in wants[1:]:
        if X.s.same(got, w.t, fact, 3000) is None:
            return chk.ob(name, True)
    return chk.eq(X, name, got, wants[0].t, fact)


# ---------------------------------------------------------------- helpers
def C20(chk):
    for fn, lim, k in (('radians_to_degrees', None, 'd'), ('degrees_to_radians', None, 'r'), ('degrees_lat', F(1, 2), 'd'),
                       ('degrees_long', 1, 'd'), ('radians_lat', 90, 'r'), ('radians_long', 180, 'r')):
        X = chk.ctx()
        s, m = X.s, X.m
        chk.prefix = fn + ': '
        a = m.v(s.var('angle'))
        v, ns = call(X, 'transforms::' + fn, [a.t])
        if ns is None:
            chk.ob('returns', False, fn, 'never returns')
            continue
        if lim is not None:
            L = m.c(lim) if k == 'r' else m.pi * lim
            ok = ((a >= -L) & (a <= L)).n
        else:
            ok = 1
        chk.cond(X, 'returns exactly for angles in range', ns.pc, ok)
        chk.eq(X, 'value', v, (a * 180 / m.pi if k == 'd' else a * m.pi / 180).t, ok)
    chk.prefix = ''


def C21(chk):
    X = chk.ctx()
    m = X.m
    a, (ax, ay, az) = vec(X, 'location')
    b, (bx, by, bz) = vec(X, 'position')
    c, (cx, cy, cz) = vec(X, 'velocity')
    v, ns = call(X, 'doppler_factor::doppler_factor', [a, b, c])
    if chk.returns(X, ns):
        r0 = m.sqrt((bx - ax) ** 2 + (by - ay) ** 2 + (bz - az) ** 2)
        r1 = m.sqrt((bx + cx - ax) ** 2 + (by + cy - ay) ** 2 + (bz + cz - az) ** 2)
        chk.eq(X, 'factor', v, (1 - (r1 - r0) / F('299792.458')).t)


def C22(chk):
    X = chk.ctx()
    m = X.m
    a, pa = vec(X, 'a')
    b, pb = vec(X, 'b')
    v, ns = call(X, 'Vec3::range', [Ref(a), Ref(b)])
    if chk.returns(X, ns, name='range returns'):
        chk.eq(X, 'range', v, m.sqrt((pa[0] - pb[0]) ** 2 + (pa[1] - pb[1]) ** 2 + (pa[2] - pb[2]) ** 2).t)
    for fn, sg in (('add', 1), ('subtract', -1)):
        v, ns = call(X, 'Vec3::' + fn, [Ref(a), Ref(b)])
        if chk.returns(X, ns, name=fn + ' returns'):
            for k, x, y in zip('xyz', pa, pb):
                chk.eq(X, '%s.%s' % (fn, k), X.get(v, k), (x + y * sg).t)


def C24(chk):
    mu, re, j2, j3 = 398600.5, 6378.137, 0.00108262998905, -0.00000253215306
    xke = 60.0 / math.sqrt(re * re * re / mu)
    want = dict(TWO_PI=2 * math.pi, DEG_2_RAD=math.pi / 180, RAD_TO_DEG=180 / math.pi, MINUTES_PER_DAY=1440.0, MU=mu,
                EARTH_RADIUS=re, X2O3=2 / 3, C=299792.458, KM_TO_MI=0.62137, MI_TO_KM=1 / 0.62137, J2=j2, J3=j3,
                J4=-0.00000161098761, J3OJ2=j3 / j2, XKE=xke, TUMIN=1 / xke, XPDOTP=1440 / (2 * math.pi))
    st = chk.dump['statics']
    for k, w in want.items():
        p = 'constants::' + k
        sd = st.get(p)
        if sd is None:
            p = next((q for q in st if q.endswith('::' + k) and q.count('::') == 1), None)
            sd = st.get(p)
        if sd is None or not sd.get('v') or sd['v'].get('k') != 'scalar':
            chk.ob('constant %s' % k, False, 'constants::' + k, 'not found as an immutable number')
            continue
        got = struct.unpack('<d', struct.pack('<Q', sd['v']['v'] & (2 ** 64 - 1)))[0]
        chk.ob('constant %s' % k, not sd['mut'] and abs(got - w) <= 4e-16 * abs(w), p, 'is %r, expected %r' % (got, w))


# ---------------------------------------------------------------- propagation to an instant
def C25(chk):
    all = dates(chk)
    for y, mo in all:
        delegated(chk, y, mo)
    for y, mo in [(1980, 10), (2024, 2), (2019, 3)] + (all[::71] if chk.deep else []):
        cases = [(False, 'I', 0, None), (True, 'I', 0, None), (True, 'I', 1, (0, 1)), (True, 'I', 2, (1, -1)),
                 (False, 'A', 0, None)]
        cases += [(True, 'I', irez, ('any', sg)) for irez in (1, 2) for sg in (1, -1)]
        for c in cases:
            at_instant(chk, y, mo, *c)
    chk.prefix = ''


def delegated(chk, y, mo):
    """Any record, at the instants of a month: the result is that of sgp4, left uninterpreted, on a copy of the record."""
    X = chk.ctx(60)
    I = X.I
    chk.prefix = '%d-%02d: ' % (y, mo)
    rec = I.sym(X.adt('Satrec'), 'r')
    T, jd = instant(X, y, mo)
    t = (jd - X.m.v(X.get(rec, 'jdsatepoch'))) * 1440
    seen = []

    def grab(I, args, st, destty):
        a = args[0]
        was = I.load(st, a.cell, a.proj) if isinstance(a, MRef) else a.v
        r = I.sym(destty, 'state%d' % len(seen))        # one call only, so nothing has to be said of a second
        seen.append((was, args[1], r))
        if isinstance(a, MRef):
            st = State(st.pc, dict(st.c))
            I.store(st, a.cell, a.proj, I.sym(was.ty, 'after%d' % len(seen)))
        return r, st
    n, bad, since = len(chk.obs), chk.bad, chk.since
    fn = X.fn('propogation::propogate_datetime')
    mut = I.types[I.body(fn).b['locals'][1][0]].get('mut')
    try:
        I.intercept = {X.fn('sgp4::sgp4'): grab}
        v, ns = I.run(fn, [MRef(REC, ()) if mut else Ref(rec), T], State(1, {REC: rec}))
        if len(seen) == 1 and chk.returns(X, ns) and chk.eq(X, 'the record', seen[0][0], rec) \
                and chk.eq(X, 'the time', seen[0][1], t.t) and chk.eq(X, 'the result', v, seen[0][2]) \
                and chk.ob('the record is left as it was', not mut or ns.c.get(REC) is rec, 'propogation::propogate_datetime'):
            return
    except Exception:
        pass
    finally:
        I.intercept = {}
    del chk.obs[n:]
    chk.bad, chk.since = bad, since
    at_instant(chk, y, mo, False, 'I', 0, None)


def at_instant(chk, y, mo, deep, ops, irez, win):
    X = chk.ctx(60)
    s, m, I = X.s, X.m, X.I
    chk.prefix = '%d-%02d, %s%s: ' % (y, mo, 'deep/%d' % irez if deep else 'near/' + ops,
                                      ', any number of steps' if win and win[0] == 'any' else '')
    rec, S = record(X, deep, ops, irez)
    T, jd = instant(X, y, mo)
    t = (jd - S.jdsatepoch) * 1440
    steps = Steps(X, S, irez, win[1], t) if win and win[0] == 'any' else None
    pre = steps.pre.n if steps else window(X, t, *win) if win else 1
    fn = X.fn('propogation::propogate_datetime')
    mut = I.types[I.body(fn).b['locals'][1][0]].get('mut')
    arg = MRef(REC, ()) if mut else Ref(rec)
    try:
        I.hooks = [steps.hook] if steps else []
        v, ns = I.run(fn, [arg, T], State(pre, {REC: rec}))
        if steps and (steps.settle() or steps.bad):
            raise NoFit('to an instant')
        w, nw = sgp4(X, rec, t.t, pre, steps)
        if steps:
            if steps.settle() or steps.bad:
                raise NoFit('to minutes')
            pre = steps.care
    except (NoFit, Unsupported) as e:
        if not steps:
            raise
        chk.samples.append('%snot decided (%s)' % (chk.prefix, e))
        return
    finally:
        I.hooks = []
    if not chk.returns(X, ns, pre):
        return
    chk.eq(X, 'result', v, w, pre)
    chk.ob('the record is left as it was', ns.c.get(REC) is rec or not mut, 'propogation::propogate_datetime')
