"""Reference equations of the SGP4/SDP4 theory (Hoots & Roehrich 1980; Vallado et al. 2006), WGS-84 constants."""
from fractions import Fraction as F


class R(dict):
    """Record with attribute access."""
    __getattr__ = dict.__getitem__

    def __setattr__(self, k, v):
        self[k] = v


class Theory:
    def __init__(self, m):
        self.m = m
        c = m.c
        self.re = c(F('6378.137'))
        self.mu = c(F('398600.5'))
        # xke = 60 / sqrt(re^3 / mu): the published 16-digit value is used as an opaque constant
        self.xke = c(0.07436685316871385)
        self.tumin = c(13.446851082044981)
        self.j2 = c(F('0.00108262998905'))
        self.j3 = c(F('-0.00000253215306'))
        self.j4 = c(F('-0.00000161098761'))
        self.j3oj2 = self.j3 / self.j2
        self.x2o3 = F(2, 3)
        self.rptim = c(4.37526908801129966e-3)

    # ---------------------------------------------------------------- sidereal time
    def gstime(self, jd):
        m = self.m
        t = (jd - 2451545) / 36525
        sec = m.c(F('-6.2e-6')) * t ** 3 + F('0.093104') * t ** 2 + (876600 * 3600 + F('8640184.812866')) * t \
            + F('67310.54841')
        ang = (sec * (m.pi / 180) / 240) % m.twopi
        return m.where(ang < 0, ang + m.twopi, ang)

    # ---------------------------------------------------------------- near-earth initialisation
    def initl(self, ecco, inclo, no, epoch, afspc):
        m = self.m
        r = R()
        r.eccsq = ecco * ecco
        r.omeosq = 1 - r.eccsq
        r.rteosq = m.sqrt(r.omeosq)
        r.cosio = m.cos(inclo)
        r.cosio2 = r.cosio * r.cosio
        ak = (self.xke / no) ** F(2, 3)
        d1 = F('0.75') * self.j2 * (3 * r.cosio2 - 1) / (r.rteosq * r.omeosq)
        d = d1 / (ak * ak)
        adel = ak * (1 - d * d - d * (F(1, 3) + 134 * d * d / 81))
        d = d1 / (adel * adel)
        r.no = no / (1 + d)
        r.ao = (self.xke / r.no) ** F(2, 3)
        r.sinio = m.sin(inclo)
        po = r.ao * r.omeosq
        r.con42 = 1 - 5 * r.cosio2
        r.con41 = -r.con42 - 2 * r.cosio2
        r.posq = po * po
        r.rp = r.ao * (1 - ecco)
        ts70 = epoch - 7305
        ds70 = m.floor(ts70 + F('1e-8'))
        tfrac = ts70 - ds70
        c1 = m.c(1.72027916940703639e-2)
        g = (m.c(1.7321343856509374) + c1 * ds70 + (c1 + m.twopi) * tfrac
             + ts70 * ts70 * m.c(5.07551419432269442e-15)) % m.twopi
        g = m.where(g < 0, g + m.twopi, g)
        r.gsto = m.where(afspc, g, self.gstime(epoch + F('2433281.5')))
        return r

    def dscom(self, epoch, ep, argpp, inclp, nodep, np, tc=0):
        m = self.m
        r = R()
        s, c = m.sin, m.cos
        snodm, cnodm = s(nodep), c(nodep)
        sinomm, cosomm = s(argpp), c(argpp)
        sinim, cosim = s(inclp), c(inclp)
        emsq = ep * ep
        betasq = 1 - emsq
        rtemsq = m.sqrt(betasq)
        day = epoch + F('18261.5')
        if not isinstance(tc, int):
            day = day + tc / 1440
        xnodce = (F('4.5236020') - F('9.2422029e-4') * day) % m.twopi
        stem, ctem = s(xnodce), c(xnodce)
        zcosil = F('0.91375164') - F('0.03568096') * ctem
        zsinil = m.sqrt(1 - zcosil * zcosil)
        zsinhl = F('0.089683511') * stem / zsinil
        zcoshl = m.sqrt(1 - zsinhl * zsinhl)
        gam = F('5.8351514') + F('0.0019443680') * day
        zx = F('0.39785416') * stem / zsinil
        zy = zcoshl * ctem + F('0.91744867') * zsinhl * stem
        zx = m.atan2(zx, zy) + gam - xnodce
        xnoi = 1 / np
        k = m.c

        def body(zcosg, zsing, zcosi, zsini, zcosh, zsinh, cc):
            b = R()
            a1 = zcosg * zcosh + zsing * zcosi * zsinh
            a3 = -zsing * zcosh + zcosg * zcosi * zsinh
            a7 = -zcosg * zsinh + zsing * zcosi * zcosh
            a8 = zsing * zsini
            a9 = zsing * zsinh + zcosg * zcosi * zcosh
            a10 = zcosg * zsini
            a2 = cosim * a7 + sinim * a8
            a4 = cosim * a9 + sinim * a10
            a5 = -sinim * a7 + cosim * a8
            a6 = -sinim * a9 + cosim * a10
            x1 = a1 * cosomm + a2 * sinomm
            x2 = a3 * cosomm + a4 * sinomm
            x3 = -a1 * sinomm + a2 * cosomm
            x4 = -a3 * sinomm + a4 * cosomm
            x5 = a5 * sinomm
            x6 = a6 * sinomm
            x7 = a5 * cosomm
            x8 = a6 * cosomm
            b.z31 = 12 * x1 * x1 - 3 * x3 * x3
            b.z32 = 24 * x1 * x2 - 6 * x3 * x4
            b.z33 = 12 * x2 * x2 - 3 * x4 * x4
            z1 = 3 * (a1 * a1 + a2 * a2) + b.z31 * emsq
            z2 = 6 * (a1 * a3 + a2 * a4) + b.z32 * emsq
            z3 = 3 * (a3 * a3 + a4 * a4) + b.z33 * emsq
            b.z11 = -6 * a1 * a5 + emsq * (-24 * x1 * x7 - 6 * x3 * x5)
            b.z12 = -6 * (a1 * a6 + a3 * a5) + emsq * (-24 * (x2 * x7 + x1 * x8) - 6 * (x3 * x6 + x4 * x5))
            b.z13 = -6 * a3 * a6 + emsq * (-24 * x2 * x8 - 6 * x4 * x6)
            b.z21 = 6 * a2 * a5 + emsq * (24 * x1 * x5 - 6 * x3 * x7)
            b.z22 = 6 * (a4 * a5 + a2 * a6) + emsq * (24 * (x2 * x5 + x1 * x6) - 6 * (x4 * x7 + x3 * x8))
            b.z23 = 6 * a4 * a6 + emsq * (24 * x2 * x6 - 6 * x4 * x8)
            b.z1 = z1 + z1 + betasq * b.z31
            b.z2 = z2 + z2 + betasq * b.z32
            b.z3 = z3 + z3 + betasq * b.z33
            b.s3 = cc * xnoi
            b.s2 = F(-1, 2) * b.s3 / rtemsq
            b.s4 = b.s3 * rtemsq
            b.s1 = -15 * ep * b.s4
            b.s5 = x1 * x3 + x2 * x4
            b.s6 = x2 * x3 + x1 * x4
            b.s7 = x2 * x4 - x1 * x3
            return b
        sun = body(k(F('0.1945905')), k(F('-0.98088458')), k(F('0.91744867')), k(F('0.39785416')), cnodm, snodm,
                   k(F('2.9864797e-6')))
        moon = body(c(zx), s(zx), zcosil, zsinil, zcoshl * cnodm + zsinhl * snodm, snodm * zcoshl - cnodm * zsinhl,
                    k(F('4.7968065e-7')))
        r.sun, r.moon = sun, moon
        r.day, r.gam, r.rtemsq, r.em, r.nm = day, gam, rtemsq, ep, np
        r.snodm, r.cnodm, r.sinomm, r.cosomm = snodm, cnodm, sinomm, cosomm
        r.emsq = emsq
        r.sinim, r.cosim = sinim, cosim
        r.zmol = (F('4.7199672') + F('0.22997150') * day - gam) % m.twopi
        r.zmos = (F('6.2565837') + F('0.017201977') * day) % m.twopi
        ze = {'s': F('0.01675'), 'm': F('0.05490')}
        for q, b in (('s', sun), ('m', moon)):
            o = R()
            o.e2 = 2 * b.s1 * b.s6
            o.e3 = 2 * b.s1 * b.s7
            o.i2 = 2 * b.s2 * b.z12
            o.i3 = 2 * b.s2 * (b.z13 - b.z11)
            o.l2 = -2 * b.s3 * b.z2
            o.l3 = -2 * b.s3 * (b.z3 - b.z1)
            o.l4 = -2 * b.s3 * (-21 - 9 * emsq) * ze[q]
            o.gh2 = 2 * b.s4 * b.z32
            o.gh3 = 2 * b.s4 * (b.z33 - b.z31)
            o.gh4 = -18 * b.s4 * ze[q]
            o.h2 = -2 * b.s2 * b.z22
            o.h3 = -2 * b.s2 * (b.z23 - b.z21)
            for n, v in o.items():
                if q == 's':
                    r['s' + n] = v
                else:
                    r[{'e2': 'ee2', 'e3': 'e3'}.get(n, 'x' + n)] = v
        return r

    def dsinit(self, d, S, eccsq, xpidot, np, em=None, inclm=None, tc=None):
        """Secular lunisolar rates and resonance coefficients; S: record after near-earth initialisation; em, inclm: elements
        at the time, when they are not those at epoch; tc: minutes after which the sidereal angle is taken."""
        m = self.m
        r = R()
        znl, zns = F('1.5835218e-4'), F('1.19459e-5')
        nm = np
        em = S.ecco if em is None else em
        inclm = S.inclo if inclm is None else inclm
        sun, moon = d.sun, d.moon
        sinim, cosim, emsq = d.sinim, d.cosim, d.emsq
        day1 = (nm < F('0.0052359877')) & (nm > F('0.0034906585'))
        half = (nm >= F('8.26e-3')) & (nm <= F('9.24e-3')) & (em >= F('0.5'))
        r.day1, r.half = day1, half
        r.irez = m.where(half, 2, m.where(day1, 1, 0))
        ses = sun.s1 * zns * sun.s5
        sis = sun.s2 * zns * (sun.z11 + sun.z13)
        sls = -zns * sun.s3 * (sun.z1 + sun.z3 - 14 - 6 * emsq)
        sghs = sun.s4 * zns * (sun.z31 + sun.z33 - 6)
        lowinc = (inclm < F('5.2359877e-2')) | (inclm > m.pi - F('5.2359877e-2'))
        z = sinim.eq(0)
        shs = m.where(lowinc, 0, -zns * sun.s2 * (sun.z21 + sun.z23))
        shs = m.where(z, shs, shs / sinim)
        sgs = sghs - cosim * shs
        r.dedt = ses + moon.s1 * znl * moon.s5
        r.didt = sis + moon.s2 * znl * (moon.z11 + moon.z13)
        r.dmdt = sls - znl * moon.s3 * (moon.z1 + moon.z3 - 14 - 6 * emsq)
        sghl = moon.s4 * znl * (moon.z31 + moon.z33 - 6)
        shll = m.where(lowinc, 0, -znl * moon.s2 * (moon.z21 + moon.z23))
        r.domdt = sgs + sghl
        r.dnodt = shs
        r.domdt = m.where(z, r.domdt, r.domdt - cosim / sinim * shll)
        r.dnodt = m.where(z, r.dnodt, r.dnodt + shll / sinim)
        theta = (S.gsto if tc is None else S.gsto + tc * self.rptim) % m.twopi
        aonv = (nm / self.xke) ** F(2, 3)
        # 12-hour resonance
        cosisq = cosim * cosim
        e, esq = S.ecco, eccsq
        eoc = e * esq

        def poly(*k):
            k = [F(x) for x in k]
            v = k[0] + k[1] * e + k[2] * esq
            if len(k) > 3:
                v = v + k[3] * eoc
            return v
        g201 = F('-0.306') - (e - F('0.64')) * F('0.440')
        lo = e <= F('0.65')
        w = m.where
        g211 = w(lo, poly('3.616', '-13.2470', '16.2900'), poly('-72.099', '331.819', '-508.738', '266.724'))
        g310 = w(lo, poly('-19.302', '117.3900', '-228.4190', '156.5910'),
                 poly('-346.844', '1582.851', '-2415.925', '1246.113'))
        g322 = w(lo, poly('-18.9068', '109.7927', '-214.6334', '146.5816'),
                 poly('-342.585', '1554.908', '-2366.899', '1215.972'))
        g410 = w(lo, poly('-41.122', '242.6940', '-471.0940', '313.9530'),
                 poly('-1052.797', '4758.686', '-7193.992', '3651.957'))
        g422 = w(lo, poly('-146.407', '841.8800', '-1629.014', '1083.4350'),
                 poly('-3581.690', '16178.110', '-24462.770', '12422.520'))
        g520 = w(lo, poly('-532.114', '3017.977', '-5740.032', '3708.2760'),
                 w(e > F('0.715'), poly('-5149.66', '29936.92', '-54087.36', '31324.56'),
                   poly('1464.74', '-4664.75', '3763.64')))
        mid = e < F('0.7')
        g533 = w(mid, poly('-919.22770', '4988.6100', '-9064.7700', '5542.21'),
                 poly('-37995.780', '161616.52', '-229838.20', '109377.94'))
        g521 = w(mid, poly('-822.71072', '4568.6173', '-8491.4146', '5337.524'),
                 poly('-51752.104', '218913.95', '-309468.16', '146349.42'))
        g532 = w(mid, poly('-853.66600', '4690.2500', '-8624.7700', '5341.4'),
                 poly('-40023.880', '170470.89', '-242699.48', '115605.82'))
        sini2 = sinim * sinim
        f220 = F('0.75') * (1 + 2 * cosim + cosisq)
        f221 = F('1.5') * sini2
        f321 = F('1.875') * sinim * (1 - 2 * cosim - 3 * cosisq)
        f322 = F('-1.875') * sinim * (1 + 2 * cosim - 3 * cosisq)
        f441 = 35 * sini2 * f220
        f442 = F('39.3750') * sini2 * sini2
        f522 = F('9.84375') * sinim * (sini2 * (1 - 2 * cosim - 5 * cosisq)
                                       + F('0.33333333') * (-2 + 4 * cosim + 6 * cosisq))
        f523 = sinim * (F('4.92187512') * sini2 * (-2 - 4 * cosim + 10 * cosisq)
                        + F('6.56250012') * (1 + 2 * cosim - 3 * cosisq))
        f542 = F('29.53125') * sinim * (2 - 8 * cosim + cosisq * (-12 + 8 * cosim + 10 * cosisq))
        f543 = F('29.53125') * sinim * (-2 - 8 * cosim + cosisq * (12 + 8 * cosim - 10 * cosisq))
        n2a = 3 * nm * nm * aonv * aonv
        root22, root32, root44, root52, root54 = [F(x) for x in (
            '1.7891679e-6', '3.7393792e-7', '7.3636953e-9', '1.1428639e-7', '2.1765803e-9')]
        h = R()
        h.d2201 = n2a * root22 * f220 * g201
        h.d2211 = n2a * root22 * f221 * g211
        h.d3210 = n2a * aonv * root32 * f321 * g310
        h.d3222 = n2a * aonv * root32 * f322 * g322
        h.d4410 = 2 * n2a * aonv ** 2 * root44 * f441 * g410
        h.d4422 = 2 * n2a * aonv ** 2 * root44 * f442 * g422
        h.d5220 = n2a * aonv ** 3 * root52 * f522 * g520
        h.d5232 = n2a * aonv ** 3 * root52 * f523 * g532
        h.d5421 = 2 * n2a * aonv ** 3 * root54 * f542 * g521
        h.d5433 = 2 * n2a * aonv ** 3 * root54 * f543 * g533
        for k, v in h.items():
            r[k] = m.where(half, v, 0)
        xlamo2 = (S.mo + 2 * S.nodeo - 2 * theta) % m.twopi
        xfact2 = S.mdot + r.dmdt + 2 * (S.nodedot + r.dnodt - self.rptim) - S.no
        # 24-hour resonance
        g200 = 1 + emsq * (F('-2.5') + F('0.8125') * emsq)
        g310d = 1 + 2 * emsq
        g300 = 1 + emsq * (-6 + F('6.60937') * emsq)
        f220d = F('0.75') * (1 + cosim) * (1 + cosim)
        f311 = F('0.9375') * sinim * sinim * (1 + 3 * cosim) - F('0.75') * (1 + cosim)
        f330 = F('1.875') * (1 + cosim) ** 3
        one = day1 & ~half
        r.del1 = m.where(one, n2a * f311 * g310d * F('2.1460748e-6') * aonv, 0)
        r.del2 = m.where(one, 2 * n2a * f220d * g200 * F('1.7891679e-6'), 0)
        r.del3 = m.where(one, 3 * n2a * f330 * g300 * F('2.2123015e-7') * aonv, 0)
        xlamo1 = (S.mo + S.nodeo + S.argpo - theta) % m.twopi
        xfact1 = S.mdot + xpidot + r.dmdt + r.domdt + r.dnodt - (S.no + self.rptim)
        r.xlamo = m.where(half, xlamo2, m.where(one, xlamo1, 0))
        r.xfact = m.where(half, xfact2, m.where(one, xfact1, 0))
        r.xli = r.xlamo
        r.xni = m.where(half | one, S.no, 0)
        r.atime = m.c(0)
        return r

    def sgp4init(self, o, afspc):
        """o: epoch, bstar, ecco, argpo, inclo, mo, no (kozai), nodeo.  Returns the initialised record."""
        m = self.m
        S = R(bstar=o.bstar, ecco=o.ecco, argpo=o.argpo, inclo=o.inclo, mo=o.mo, nodeo=o.nodeo)
        i = self.initl(o.ecco, o.inclo, o.no, o.epoch, afspc)
        S.no, S.con41, S.gsto = i.no, i.con41, i.gsto
        w = m.where
        re = self.re
        live = (i.omeosq >= 0) | (i.no >= 0)
        rp = i.rp
        perige = (rp - 1) * re
        S.isimp1 = rp < 220 / re + 1
        low, vlow = perige < 156, perige < 98
        h = w(vlow, 20, perige - 78)
        sfour = w(low, h / re + 1, 78 / re + 1)
        q = w(low, (120 - h) / re, (120 - 78) / re)
        qzms24 = q ** 4
        pinvsq = 1 / i.posq
        tsi = 1 / (i.ao - sfour)
        S.eta = i.ao * S.ecco * tsi
        etasq = S.eta * S.eta
        eeta = S.ecco * S.eta
        psisq = m.abs(1 - etasq)
        coef = qzms24 * tsi ** 4
        coef1 = coef / psisq ** F(7, 2)
        j2 = self.j2
        cc2 = coef1 * S.no * (i.ao * (1 + F('1.5') * etasq + eeta * (4 + etasq))
                              + F('0.375') * j2 * tsi / psisq * S.con41 * (8 + 3 * etasq * (8 + etasq)))
        S.cc1 = S.bstar * cc2
        ecc = S.ecco > F('1e-4')
        cc3 = w(ecc, -2 * coef * tsi * self.j3oj2 * S.no * i.sinio / S.ecco, 0)
        S.x1mth2 = 1 - i.cosio2
        S.cc4 = 2 * S.no * coef1 * i.ao * i.omeosq * (
            S.eta * (2 + F('0.5') * etasq) + S.ecco * (F('0.5') + 2 * etasq)
            - j2 * tsi / (i.ao * psisq) * (
                -3 * S.con41 * (1 - 2 * eeta + etasq * (F('1.5') - F('0.5') * eeta))
                + F('0.75') * S.x1mth2 * (2 * etasq - eeta * (1 + etasq)) * m.cos(2 * S.argpo)))
        S.cc5 = 2 * coef1 * i.ao * i.omeosq * (1 + F('2.75') * (etasq + eeta) + eeta * etasq)
        cosio4 = i.cosio2 * i.cosio2
        t1 = F('1.5') * j2 * pinvsq * S.no
        t2 = F('0.5') * t1 * j2 * pinvsq
        t3 = F('-0.46875') * self.j4 * pinvsq * pinvsq * S.no
        S.mdot = S.no + F('0.5') * t1 * i.rteosq * S.con41 + F('0.0625') * t2 * i.rteosq * (
            13 - 78 * i.cosio2 + 137 * cosio4)
        S.argpdot = F('-0.5') * t1 * i.con42 + F('0.0625') * t2 * (7 - 114 * i.cosio2 + 395 * cosio4) \
            + t3 * (3 - 36 * i.cosio2 + 49 * cosio4)
        xhdot1 = -t1 * i.cosio
        S.nodedot = xhdot1 + (F('0.5') * t2 * (4 - 19 * i.cosio2) + 2 * t3 * (3 - 7 * i.cosio2)) * i.cosio
        xpidot = S.argpdot + S.nodedot
        S.omgcof = S.bstar * cc3 * m.cos(S.argpo)
        S.xmcof = w(ecc, F(-2, 3) * coef * S.bstar / eeta, 0)
        S.nodecf = F('3.5') * i.omeosq * xhdot1 * S.cc1
        S.t2cof = F('1.5') * S.cc1
        S.xlcof = self.xlcof(i.sinio, i.cosio)
        S.aycof = F('-0.5') * self.j3oj2 * i.sinio
        S.delmo = (1 + S.eta * m.cos(S.mo)) ** 3
        S.sinmao = m.sin(S.mo)
        S.x7thm1 = 7 * i.cosio2 - 1
        S.deep = m.twopi / S.no >= 225
        d = self.dscom(o.epoch, S.ecco, S.argpo, S.inclo, S.nodeo, S.no)
        ds = self.dsinit(d, S, i.eccsq, xpidot, S.no)
        S.luni = R()
        for k in ('e3', 'ee2', 'se2', 'se3', 'sgh2', 'sgh3', 'sgh4', 'sh2', 'sh3', 'si2', 'si3', 'sl2', 'sl3', 'sl4',
                  'xgh2', 'xgh3', 'xgh4', 'xh2', 'xh3', 'xi2', 'xi3', 'xl2', 'xl3', 'xl4', 'zmol', 'zmos'):
            S.luni[k] = d[k]
        for k in ('peo', 'pgho', 'pho', 'pinco', 'plo'):
            S.luni[k] = m.c(0)
        for k in ('dedt', 'didt', 'dmdt', 'dnodt', 'domdt'):
            S.luni[k] = ds[k]
        S.reso = R()
        for k in ('irez', 'd2201', 'd2211', 'd3210', 'd3222', 'd4410', 'd4422', 'd5220', 'd5232', 'd5421', 'd5433',
                  'del1', 'del2', 'del3', 'xfact', 'xlamo', 'xli', 'xni', 'atime'):
            S.reso[k] = ds[k]
        S.day1, S.half = ds.day1, ds.half
        simp = S.isimp1 | S.deep
        S.simp = simp
        c1 = S.cc1
        c1sq = c1 * c1
        d2 = 4 * i.ao * tsi * c1sq
        tmp = d2 * tsi * c1 / 3
        d3 = (17 * i.ao + sfour) * tmp
        d4 = F('0.5') * tmp * i.ao * tsi * (221 * i.ao + 31 * sfour) * c1
        S.d2, S.d3, S.d4 = d2, d3, d4
        S.t3cof = d2 + 2 * c1sq
        S.t4cof = F('0.25') * (3 * d3 + c1 * (12 * d2 + 10 * c1sq))
        S.t5cof = F('0.2') * (3 * d4 + 12 * c1 * d3 + 6 * d2 * d2 + 15 * c1sq * (2 * d2 + c1sq))
        for k in ('d2', 'd3', 'd4', 't3cof', 't4cof', 't5cof'):
            S[k] = w(simp, 0, S[k])
        S.live = live
        return S

    def xlcof(self, si, ci):
        m = self.m
        n = F('-0.25') * self.j3oj2 * si * (3 + 5 * ci)
        return m.where(m.abs(ci + 1) > F('1.5e-12'), n / (1 + ci), n / m.c(F('1.5e-12')))

    # ---------------------------------------------------------------- deep-space propagation
    def resonance_rates(self, S, irez, xli, xni, atime):
        m = self.m
        s, c = m.sin, m.cos
        xldot = xni + S.xfact
        if irez == 1:
            terms = [(S.del1, 1, 0, F('0.13130908')), (S.del2, 2, 0, F('2.8843198') * 2),
                     (S.del3, 3, 0, F('0.37448087') * 3)]
        else:
            G22, G32, G44, G52, G54 = [F(x) for x in ('5.7686396', '0.95240898', '1.8014998', '1.0508330', '4.4108898')]
            terms = [(S.d2201, 1, 2, G22), (S.d2211, 1, 0, G22), (S.d3210, 1, 1, G32), (S.d3222, 1, -1, G32),
                     (S.d4410, 2, 2, G44), (S.d4422, 2, 0, G44), (S.d5220, 1, 1, G52), (S.d5232, 1, -1, G52),
                     (S.d5421, 2, 1, G54), (S.d5433, 2, -1, G54)]
        xomi = S.argpo + S.argpdot * atime
        xndt = m.c(0)
        dd = m.c(0)
        for k, l, w, g in terms:
            a = l * xli + w * xomi - g
            xndt = xndt + k * s(a)
            # derivative of xndt with respect to xli
            dd = dd + l * k * c(a)
        return xndt, xldot, dd * xldot

    def dspace(self, S, irez, t, em, argpm, inclm, mm, nodem, steps, tc=None):
        """Secular lunisolar effects and resonance integration from epoch; (values, completed condition)."""
        m = self.m
        theta = (S.gsto + (t if tc is None else tc) * self.rptim) % m.twopi
        em = em + S.dedt * t
        inclm = inclm + S.didt * t
        argpm = argpm + S.domdt * t
        nodem = nodem + S.dnodt * t
        mm = mm + S.dmdt * t
        nm = S.no
        done = m.true
        if irez:
            w = m.where
            delt = w(t > 0, 720, -720)
            xli, xni, at = S.xlamo, S.no, m.c(0)
            if isinstance(steps, tuple) and isinstance(steps[0], tuple):
                # the state (longitude, mean motion, time) after the last whole step
                xli, xni, at = steps[0]
                steps = 0
                done0 = m.true
            elif isinstance(steps, tuple):
                # t lies in a window that takes exactly steps[0] whole steps of 720 minutes in direction steps[1]
                k, sign = steps
                delt = m.c(720 * sign)
                for _ in range(k):
                    xndt, xldot, xnddt = self.resonance_rates(S, irez, xli, xni, at)
                    xli, xni, at = xli + xldot * delt + xndt * 259200, xni + xndt * delt + xnddt * 259200, at + delt
                steps = 0
                done0 = m.true
            else:
                done0 = None
            for _ in range(steps):
                xndt, xldot, xnddt = self.resonance_rates(S, irez, xli, xni, at)
                go = m.abs(t - at) >= 720
                xl1 = xli + xldot * delt + xndt * 259200
                xn1 = xni + xndt * delt + xnddt * 259200
                xli, xni, at = w(go, xl1, xli), w(go, xn1, xni), w(go, at + delt, at)
            done = done0 or m.abs(t - at) < 720
            xndt, xldot, xnddt = self.resonance_rates(S, irez, xli, xni, at)
            ft = t - at
            nm = xni + xndt * ft + xnddt * ft * ft / 2
            xl = xli + xldot * ft + xndt * ft * ft / 2
            if irez == 1:
                mm = xl - nodem - argpm + theta
            else:
                mm = xl - 2 * nodem + 2 * theta
        return (em, argpm, inclm, mm, nodem, nm), done

    def dpper(self, S, afspc, t, ep, inclp, nodep, argpp, mp):
        m = self.m
        s, c = m.sin, m.cos

        def body(zm0, n, e):
            zm = zm0 + F(n) * t
            zf = zm + 2 * F(e) * s(zm)
            sz = s(zf)
            return sz, F('0.5') * sz * sz - F('0.25'), F('-0.5') * sz * c(zf)
        sz, f2, f3 = body(S.zmos, '1.19459e-5', '0.01675')
        lz, g2, g3 = body(S.zmol, '1.5835218e-4', '0.05490')
        pe = S.se2 * f2 + S.se3 * f3 + S.ee2 * g2 + S.e3 * g3 - S.peo
        pinc = S.si2 * f2 + S.si3 * f3 + S.xi2 * g2 + S.xi3 * g3 - S.pinco
        pl = S.sl2 * f2 + S.sl3 * f3 + S.sl4 * sz + S.xl2 * g2 + S.xl3 * g3 + S.xl4 * lz - S.plo
        pgh = S.sgh2 * f2 + S.sgh3 * f3 + S.sgh4 * sz + S.xgh2 * g2 + S.xgh3 * g3 + S.xgh4 * lz - S.pgho
        ph = S.sh2 * f2 + S.sh3 * f3 + S.xh2 * g2 + S.xh3 * g3 - S.pho
        inclp = inclp + pinc
        ep = ep + pe
        si, ci = s(inclp), c(inclp)
        w = m.where
        high = inclp >= F('0.2')
        # direct application
        ph1 = ph / si
        argp1 = argpp + pgh - ci * ph1
        node1 = nodep + ph1
        # Lyddane modification
        so, co = s(nodep), c(nodep)
        alf = si * so + ph * co + pinc * ci * so
        bet = si * co - ph * so + pinc * ci * co
        n0 = nodep % m.twopi
        n0 = w((n0 < 0) & afspc, n0 + m.twopi, n0)
        xls = mp + argpp + ci * n0 + pl + pgh - pinc * n0 * si
        n1 = m.atan2(alf, bet)
        n1 = w((n1 < 0) & afspc, n1 + m.twopi, n1)
        n1 = w(m.abs(n0 - n1) > m.pi, w(n1 < n0, n1 + m.twopi, n1 - m.twopi), n1)
        mp = mp + pl
        argp2 = xls - mp - ci * n1
        return ep, inclp, w(high, node1, n1), w(high, argp1, argp2), mp

    # ---------------------------------------------------------------- propagation
    def sgp4(self, S, t, deep, irez=0, afspc=None, steps=3, full=None, kepler=10):
        """Returns record of results; S: record of values; deep: bool; full: condition isimp != 1."""
        m = self.m
        w, s, c = m.where, m.sin, m.cos
        r = R()
        xmdf = S.mo + S.mdot * t
        argpdf = S.argpo + S.argpdot * t
        nodedf = S.nodeo + S.nodedot * t
        t2 = t * t
        nodem = nodedf + S.nodecf * t2
        tempa = 1 - S.cc1 * t
        tempe = S.bstar * S.cc4 * t
        templ = S.t2cof * t2
        delm = S.xmcof * ((1 + S.eta * c(xmdf)) ** 3 - S.delmo)
        tmp = S.omgcof * t + delm
        t3 = t2 * t
        t4 = t3 * t
        mm_f = xmdf + tmp
        argpm = w(full, argpdf - tmp, argpdf)
        mm = w(full, mm_f, xmdf)
        tempa = w(full, tempa - S.d2 * t2 - S.d3 * t3 - S.d4 * t4, tempa)
        tempe = w(full, tempe + S.bstar * S.cc5 * (s(mm_f) - S.sinmao), tempe)
        templ = w(full, templ + S.t3cof * t3 + t4 * (S.t4cof + t * S.t5cof), templ)
        nm, em, inclm = S.no, S.ecco, S.inclo
        r.done = m.true
        if deep:
            (em, argpm, inclm, mm, nodem, nm), r.done = self.dspace(S, irez, t, em, argpm, inclm, mm, nodem, steps)
        r.e_nm = nm <= 0
        am = (self.xke / nm) ** F(2, 3) * tempa * tempa
        nm = self.xke / am ** F(3, 2)
        em = em - tempe
        r.e_ecc = (em >= 1) | (em < F('-0.001'))
        em = w(em < F('1e-6'), F('1e-6'), em)
        mm = mm + S.no * templ
        xlm = mm + argpm + nodem
        nodem = nodem % m.twopi
        argpm = argpm % m.twopi
        xlm = xlm % m.twopi
        mm = (xlm - argpm - nodem) % m.twopi
        ep, xincp, argpp, nodep, mp = em, inclm, argpm, nodem, mm
        sinip, cosip = s(xincp), c(xincp)
        aycof, xlcof, con41, x1mth2, x7thm1 = S.aycof, S.xlcof, S.con41, S.x1mth2, S.x7thm1
        r.e_ep = m.false
        if deep:
            ep, xincp, nodep, argpp, mp = self.dpper(S, afspc, t, ep, xincp, nodep, argpp, mp)
            neg = xincp < 0
            nodep = w(neg, nodep + m.pi, nodep)
            argpp = w(neg, argpp - m.pi, argpp)
            xincp = w(neg, -xincp, xincp)
            r.e_ep = (ep < 0) | (ep > 1)
            sinip, cosip = s(xincp), c(xincp)
            aycof = F('-0.5') * self.j3oj2 * sinip
            xlcof = self.xlcof(sinip, cosip)
            cs = cosip * cosip
            con41, x1mth2, x7thm1 = 3 * cs - 1, 1 - cs, 7 * cs - 1
        axnl = ep * c(argpp)
        tmp = 1 / (am * (1 - ep * ep))
        aynl = ep * s(argpp) + tmp * aycof
        xl = mp + argpp + nodep + tmp * xlcof * axnl
        u = (xl - nodep) % m.twopi
        # Kepler's equation
        e1 = u
        go = m.true
        se, ce = m.c(0), m.c(0)
        for _ in range(kepler):
            s1, c1 = s(e1), c(e1)
            d = (u - aynl * c1 + axnl * s1 - e1) / (1 - c1 * axnl - s1 * aynl)
            d = w(m.abs(d) >= F('0.95'), w(d > 0, F('0.95'), F('-0.95')), d)
            se, ce = w(go, s1, se), w(go, c1, ce)
            e1 = e1 + d
            go = go & (m.abs(d) >= F('1e-12'))
        ecose = axnl * ce + aynl * se
        esine = axnl * se - aynl * ce
        el2 = axnl * axnl + aynl * aynl
        pl = am * (1 - el2)
        r.e_pl = pl < 0
        rl = am * (1 - ecose)
        rdotl = m.sqrt(am) * esine / rl
        rvdotl = m.sqrt(pl) / rl
        betal = m.sqrt(1 - el2)
        tmp = esine / (1 + betal)
        sinu = am / rl * (se - aynl - axnl * tmp)
        cosu = am / rl * (ce - axnl + aynl * tmp)
        su = m.atan2(sinu, cosu)
        sin2u = 2 * cosu * sinu
        cos2u = 1 - 2 * sinu * sinu
        t1 = F('0.5') * self.j2 / pl
        t2 = t1 / pl
        mrt = rl * (1 - F('1.5') * t2 * betal * con41) + F('0.5') * t1 * x1mth2 * cos2u
        su = su - F('0.25') * t2 * x7thm1 * sin2u
        xnode = nodep + F('1.5') * t2 * cosip * sin2u
        xinc = xincp + F('1.5') * t2 * cosip * sinip * cos2u
        mvt = rdotl - nm * t1 * x1mth2 * sin2u / self.xke
        rvdot = rvdotl + nm * t1 * (x1mth2 * cos2u + F('1.5') * con41) / self.xke
        sinsu, cossu = s(su), c(su)
        snod, cnod = s(xnode), c(xnode)
        sini, cosi = s(xinc), c(xinc)
        xmx, xmy = -snod * cosi, cnod * cosi
        U = (xmx * sinsu + cnod * cossu, xmy * sinsu + snod * cossu, sini * sinsu)
        W = (xmx * cossu - cnod * sinsu, xmy * cossu - snod * sinsu, sini * cossu)
        vk = self.re * self.xke / 60
        r.pos = [mrt * x * self.re for x in U]
        r.vel = [(mvt * x + rvdot * y) * vk for x, y in zip(U, W)]
        r.e_decay = mrt < 1
        r.scratch = R(aycof=aycof, xlcof=xlcof, con41=con41, x1mth2=x1mth2, x7thm1=x7thm1)
        return r
