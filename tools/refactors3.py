"""A third collection of behaviour-preserving edits: operators, tables, traits, generic helpers, builders, recursion."""
import re
from refactors import R, sub, fn, rx, apply, fnspan
P = 'propogation/'
L = []
def add(*a): L.append(R(*a))

# ------------------------------------------------------------------ lib, transforms, doppler
add('vec-norm', fn('doppler_factor.rs', 'doppler_factor', '''
pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
    let before = position.subtract(&location);
    let after = before.add(&velocity);
    1.0 - (after.norm() - before.norm()) / C
}
'''), sub('lib.rs', '''    pub fn add(&self, by: &Vec3)''', '''    /// Scalar product.
    pub fn dot(&self, with: &Vec3) -> f64 {
        self.x * with.x + self.y * with.y + self.z * with.z
    }

    /// Length.
    pub fn norm(&self) -> f64 {
        self.dot(self).sqrt()
    }

    pub fn add(&self, by: &Vec3)'''), rx('lib.rs', r'(?s)        \(\(\(self\.x - to\.x\).*?\.sqrt\(\)\n', '''        self.subtract(to).norm()
''', 1))
add('vec-operators', sub('lib.rs', '''impl Vec3 {
''', '''impl std::ops::Neg for &Vec3 {
    type Output = Vec3;
    fn neg(self) -> Vec3 {
        Vec3 { x: -self.x, y: -self.y, z: -self.z }
    }
}

impl std::ops::Add for &Vec3 {
    type Output = Vec3;
    fn add(self, by: &Vec3) -> Vec3 {
        Vec3 { x: self.x + by.x, y: self.y + by.y, z: self.z + by.z }
    }
}

impl std::ops::Mul<f64> for Vec3 {
    type Output = Vec3;
    fn mul(self, k: f64) -> Vec3 {
        Vec3 { x: self.x * k, y: self.y * k, z: self.z * k }
    }
}

impl Vec3 {
'''), rx('lib.rs', r'(?s)        Vec3 \{\n            x: self\.x - by\.x,.*?\n        \}\n', '''        self + &-by
''', 1), rx(P + 'sgp4.rs', r'(?s)    let r = Eci \{\n.*?\n    \};\n', '''    let r = Eci { x: ux, y: uy, z: uz } * (mrt * EARTH_RADIUS);
''', 1), rx(P + 'sgp4.rs', r'(?s)    let v = Vec3 \{\n.*?\n    \};\n', '''    let radial = Vec3 { x: ux, y: uy, z: uz } * mvt;
    let along = Vec3 { x: vx, y: vy, z: vz } * rvdot;
    let v = (&radial + &along) * vkmpersec;
''', 1))
add('degrees-assert', *[rx('transforms.rs', r'    if (%s) < -(\S+) \|\| \1 > (\S+) \{\n        panic!\((".*?")\)\n    \}\n' % a, r'    assert!(\1 >= -\2 && \1 <= \3, \4);\n', 2) for a in ('radians', 'degrees')])
add('degrees-generic', sub('transforms.rs', 'pub fn degrees_lat(', '''fn within(value: f64, limit: f64, message: &'static str) -> f64 {
    match value.abs() > limit {
        true => panic!("{}", message),
        false => value,
    }
}

pub fn degrees_lat('''), *[rx('transforms.rs', r'(?s)    if %s < -\S+ \|\| %s > (\S+) \{\n        panic!\((".*?")\)\n    \}\n\n    (\w+)\(%s\)\n' % (a, a, a), r'    \3(within(%s, \1, \2))\n' % a, 2) for a in ('radians', 'degrees')])
add('geodetic-sincos', fn('transforms.rs', 'geodedic_to_ecf', '''
pub fn geodedic_to_ecf(geodetic: &Geodedic) -> Ecf {
    const A: f64 = 6378.137;
    const B: f64 = 6356.7523142;
    const F: f64 = (A - B) / A;
    const E2: f64 = ((2.0 * F) - (F * F));

    let &Geodedic { longitude, latitude, height } = geodetic;
    let (sin_lat, cos_lat) = latitude.sin_cos();
    let (sin_lon, cos_lon) = longitude.sin_cos();
    let normal = A / (1.0 - E2 * sin_lat * sin_lat).sqrt();
    let axial = (normal + height) * cos_lat;

    Vec3 {
        x: axial * cos_lon,
        y: axial * sin_lon,
        z: normal.mul_add(1.0 - E2, height) * sin_lat,
    }
}
'''))
add('geodetic-recursive', sub('transforms.rs', 'pub fn eci_to_geodedic(', '''/// Latitude and curvature after `left` more rounds.
fn settle(z: f64, r: f64, e2: f64, a: f64, latitude: f64, c: f64, left: u32) -> (f64, f64) {
    if left == 0 {
        return (latitude, c);
    }
    let s = latitude.sin();
    let c = (1.0 - e2 * s * s).sqrt().recip();
    settle(z, r, e2, a, (z + a * c * e2 * s).atan2(r), c, left - 1)
}

pub fn eci_to_geodedic('''), rx('transforms.rs', r'(?s)    const KMAX: i32 = 20;\n.*?    let height', '''    let (latitude, c) = settle(eci.z, r, E2, A, eci.z.atan2(r), 0.0, 20);

    let height''', 1))
add('geodetic-successors', rx('transforms.rs', r'(?s)    const KMAX: i32 = 20;\n.*?    let height', '''    let curvature = |latitude: f64| 1.0 / (1.0 - E2 * latitude.sin().powi(2)).sqrt();
    let mut history = std::iter::successors(Some(eci.z.atan2(r)), |&latitude| {
        Some((eci.z + A * curvature(latitude) * E2 * latitude.sin()).atan2(r))
    });
    let previous = history.nth(19).unwrap();
    let c = curvature(previous);
    let latitude = history.next().unwrap();

    let height''', 1))
add('geodetic-array', rx('transforms.rs', r'(?s)    const KMAX: i32 = 20;\n.*?    let height', '''    let mut latitude = eci.z.atan2(r);
    let mut c = 0.0;
    for _ in [(); 20] {
        c = (1.0 - E2 * latitude.sin().powi(2)).sqrt().recip();
        latitude = (eci.z + A * c * E2 * latitude.sin()).atan2(r);
    }

    let height''', 1))
add('rotate-matrix', rx('transforms.rs', r'(?s)pub fn ecf_to_eci\(.*?\n\}\n\npub fn eci_to_ecf\(.*?\n\}\n', '''/// The rotation by `angle` about the axis of the earth.
fn turn(v: &Vec3, angle: f64) -> Vec3 {
    let (s, c) = angle.sin_cos();
    let m = [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]];
    let v = [v.x, v.y, v.z];
    let mut w = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            w[i] += m[i][j] * v[j];
        }
    }
    let [x, y, z] = w;
    Vec3 { x, y, z }
}

pub fn ecf_to_eci(ecf: &Ecf, gmst: f64) -> Eci {
    turn(ecf, gmst)
}

pub fn eci_to_ecf(eci: &Eci, gmst: f64) -> Ecf {
    turn(eci, -gmst)
}
''', 1))
add('topo-rows', rx('transforms.rs', r'(?s)    let top_s = .*?    TopoCentric \{', '''    let (sl, cl) = observer.latitude.sin_cos();
    let (so, co) = observer.longitude.sin_cos();
    let rows = [[sl * co, sl * so, -cl], [-so, co, 0.0], [cl * co, cl * so, sl]];
    let along = |row: &[f64; 3]| row.iter().zip([r.x, r.y, r.z].iter()).map(|(a, b)| a * b).sum::<f64>();
    let [top_s, top_e, top_z] = [along(&rows[0]), along(&rows[1]), along(&rows[2])];

    TopoCentric {''', 1))
add('look-hypot', sub('transforms.rs', '''    let range_sat = (tc.top_s.powi(2) + tc.top_e.powi(2) + tc.top_z.powi(2)).sqrt();
''', '''    let ground = tc.top_s.hypot(tc.top_e);
    let range_sat = ground.hypot(tc.top_z);
'''))
add('look-method', rx('transforms.rs', r'(?s)pub fn topocentric_to_look_angles.*?\n\}\n', '''impl From<&TopoCentric> for Bearing {
    fn from(tc: &TopoCentric) -> Bearing {
        let TopoCentric { top_s, top_e, top_z } = *tc;
        let range = [top_s, top_e, top_z].iter().fold(0.0, |sum, x| sum + x * x).sqrt();
        Bearing {
            azimuth: PI + f64::atan2(-top_e, top_s),
            elevation: f64::asin(top_z / range),
            range,
        }
    }
}

pub fn topocentric_to_look_angles(tc: &TopoCentric) -> Bearing {
    tc.into()
}
''', 1))

# ------------------------------------------------------------------ ext, gstime, mod
add('days-cumulative', fn('ext.rs', 'days2mdhms', '''
/// Days before each month of an ordinary year.
const BEFORE: [u64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];

pub fn days2mdhms(year: u64, days: f64) -> MDHMS {
    let leap = (year & 3 == 0) as u64;
    let before = |k: usize| BEFORE[k] + if k >= 2 { leap } else { 0 };

    let whole = days.floor();
    let day_of_year = whole as u64;
    let k = (1..12).rev().find(|&k| day_of_year > before(k)).unwrap_or(0);

    let mut rest = (days - day_of_year as f64) * 24.0;
    let mut take = || {
        let part = rest.floor();
        rest = (rest - part) * 60.0;
        part
    };
    let hour = take();
    let minute = take();

    MDHMS {
        month: (k + 1) as f64,
        day: (day_of_year - before(k)) as f64,
        hour,
        minute,
        second: rest,
    }
}
'''))
add('days-partition', fn('ext.rs', 'days2mdhms', '''
pub fn days2mdhms(year: u64, days: f64) -> MDHMS {
    const COMMON: [u64; 11] = [31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    const LEAP: [u64; 11] = [31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335];
    let ends = if year % 4 == 0 { &LEAP } else { &COMMON };

    let dayofyr = days.floor() as u64;
    let passed = ends.iter().take_while(|&&end| dayofyr > end).count();
    let first = if passed == 0 { 0 } else { ends[passed - 1] };

    let hours = (days - dayofyr as f64) * 24.0;
    let minutes = (hours - hours.floor()) * 60.0;

    MDHMS {
        month: 1.0 + passed as f64,
        day: (dayofyr - first) as f64,
        hour: hours.floor(),
        minute: minutes.floor(),
        second: (minutes - minutes.floor()) * 60.0,
    }
}
'''))
add('jday-split', fn('ext.rs', 'jday', '''
/// Julian date of the midnight that starts a day.
fn midnight(year: f64, mon: f64, day: f64) -> f64 {
    let shifted = year + ((mon + 9.0) / 12.0).floor();
    367.0 * year - (1.75 * shifted).floor() + (mon * 275.0 / 9.0).floor() + day + 1721013.5
}

pub fn jday(year: f64, mon: f64, day: f64, hr: f64, minute: f64, sec: f64, msec: f64) -> f64 {
    let minutes = hr * 60.0 + minute + sec / 60.0 + msec / 60000.0;
    midnight(year, mon, day) + minutes / 1440.0
}
'''))
add('jday-seconds', fn('ext.rs', 'jday_datetime', '''
pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
    let date = time.date_naive();
    let clock = time.time();
    let start = jday(date.year() as f64, date.month() as f64, date.day() as f64, 0.0, 0.0, 0.0, 0.0);
    let seconds = clock.num_seconds_from_midnight() as f64 + clock.nanosecond() as f64 * 1e-9;
    start + seconds / 86400.0
}
'''))
add('gst-coefficients', rx(P + 'gstime.rs', r'(?s)    let mut temp = \(-6.*?// # sec\n', '''    const SERIES: [f64; 4] = [67310.54841, 876600.0 * 3600.0 + 8640184.812866, 0.093104, -6.2e-6];
    let mut temp = SERIES.iter().rev().fold(0.0, |sum, term| sum * tut1 + term);
''', 1))
add('gst-where', rx(P + 'gstime.rs', r'(?s)    temp = \(\(temp \* DEG_2_RAD\).*?    return temp;\n', '''    temp = (temp / 240.0).to_radians() % TWO_PI;

    match temp {
        t if t < 0.0 => t + TWO_PI,
        t => t,
    }
''', 1))
add('datetime-method', rx(P + 'mod.rs', r'(?s)  let j = .*?  return sgp4\(&mut rec, m\);\n', '''  let minutes = satrec.minutes_to(time);
  sgp4(&mut satrec.clone(), minutes)
''', 1), sub(P + 'mod.rs', '/// Propogate changes', '''impl Satrec {
  /// Minutes from epoch to an instant.
  pub fn minutes_to(&self, time: DateTime<Utc>) -> f64 {
    MINUTES_PER_DAY * jday_datetime(time) - MINUTES_PER_DAY * self.jdsatepoch
  }
}

/// Propogate changes'''))

# ------------------------------------------------------------------ initialisation
add('init-default', sub('io.rs', '    pub fn zero() -> Satrec {\n', '    pub fn zero() -> Satrec {\n        Satrec::default()\n    }\n}\n\nimpl Default for Satrec {\n    fn default() -> Satrec {\n'))
add('init-reset', rx(P + 'sgp4init.rs', r'(?s)    // ----------- set all near earth variables to zero -+\n.*?    satrec\.xni = 0\.0;\n', '''    // Everything but what identifies the set is set to zero.
    let blank = Satrec::zero();
    *satrec = Satrec {
        name: satrec.name.take(),
        satnum: std::mem::take(&mut satrec.satnum),
        epochyr: satrec.epochyr,
        epochdays: satrec.epochdays,
        ndot: satrec.ndot,
        nddot: satrec.nddot,
        a: satrec.a,
        alta: satrec.alta,
        altp: satrec.altp,
        jdsatepoch: satrec.jdsatepoch,
        ..blank
    };
    satrec.isimp = 0;
    satrec.method = crate::propogation::initl::InitlMethod::N;
''', 1))
add('init-xlcof-fn', *[rx(P + f, r'(?s)if \((%s) \+ 1\.0\)\.abs\(\) > 1\.5e-12 \{\n.*?TEMP4;\n\s*\}\n' % c, r'satrec.xlcof = crate::propogation::sgp4::long_period(%s, \1);\n' % s, 1) for f, c, s in (('sgp4init.rs', 'cosio', 'sinio'), ('sgp4.rs', 'cosip', 'sinip'))],
    sub(P + 'sgp4.rs', 'pub fn sgp4(', '''/// Coefficient of the long period term of the longitude.
pub(crate) fn long_period(s: f64, c: f64) -> f64 {
    let one = 1.0 + c;
    let divisor = if one.abs() > 1.5e-12 { one } else { 1.5e-12 };
    -0.25 * J3OJ2 * s * 5.0f64.mul_add(c, 3.0) / divisor
}

pub fn sgp4('''))
add('init-density', rx(P + 'sgp4init.rs', r'(?s)        sfour = ss;\n.*?        pinvsq = ', '''        let ratio = |height: f64| ((120.0 - height) / EARTH_RADIUS).powi(4);
        perige = (rp - 1.0) * EARTH_RADIUS;
        let height = match perige {
            p if p >= 156.0 => 78.0,
            p if p >= 98.0 => p - 78.0,
            _ => 20.0,
        };
        qzms24 = ratio(height);
        sfour = 1.0 + height / EARTH_RADIUS;
        pinvsq = ''', 1))
add('init-guard', rx(P + 'sgp4init.rs', r'        cc3 = 0\.0;\n        if satrec\.ecco > 1\.0e-4 \{\n            cc3 = (.*?);\n        \}\n', r'        let eccentric = satrec.ecco > 1.0e-4;\n        cc3 = eccentric.then(|| \1).unwrap_or_default();\n', 1),
    rx(P + 'sgp4init.rs', r'        satrec\.xmcof = 0\.0;\n        if satrec\.ecco > 1\.0e-4 \{\n            satrec\.xmcof = (.*?);\n        \}\n', r'        satrec.xmcof = if eccentric { \1 } else { 0.0 };\n', 1))
add('init-deep-fn', rx(P + 'sgp4init.rs', r'(?s)            let dpper_options = DpperOptions \{\n.*?            satrec\.mo = dpper_result\.mp;\n', '''            apply_periodics(satrec, inclm);
''', 1), sub(P + 'sgp4init.rs', 'pub fn sgp4init(', '''/// Passes the mean elements through the periodics of the initialisation.
fn apply_periodics(satrec: &mut Satrec, inclo: f64) {
    let DpperResult { ep, inclp, nodep, argpp, mp } = dpper(
        satrec,
        DpperOptions {
            inclo,
            init: satrec.init.clone(),
            ep: satrec.ecco,
            inclp: satrec.inclo,
            nodep: satrec.nodeo,
            argpp: satrec.argpo,
            mp: satrec.mo,
            opsmode: satrec.operationmode.clone(),
        },
    );
    satrec.ecco = ep;
    satrec.inclo = inclp;
    satrec.nodeo = nodep;
    satrec.argpo = argpp;
    satrec.mo = mp;
}

pub fn sgp4init('''))
add('initl-kozai', rx(P + 'initl.rs', r'(?s)    let ak = .*?    no /= 1\.0 \+ del_prime;\n', '''    let axis = |motion: f64| (XKE / motion).powf(X2O3);
    let d1 = 0.75 * J2 * (3.0 * cosio2 - 1.0) / (rteosq * omeosq);
    let delta = |a: f64| d1 / a.powi(2);
    let ak = axis(no);
    let d = delta(ak);
    let adel = ak * (1.0 - d * (1.0 / 3.0 + d * (1.0 + d * 134.0 / 81.0)));
    no = no / (1.0 + delta(adel));
''', 1))
add('initl-enum', rx(P + 'initl.rs', r'(?s)    let mut gsto;\n    if opsmode == DpperOpsMode::A \{\n(.*?)        if gsto < 0\.0 \{\n.*?    \} else \{\n.*?    \}\n\n', r'''    let gsto = match opsmode {
        DpperOpsMode::A => {
            let gsto;
\1
            match gsto < 0.0 {
                true => gsto + TWO_PI,
                false => gsto,
            }
        }
        DpperOpsMode::I | DpperOpsMode::UNDEFINED => gstime::gstime(epoch + 2433281.5),
    };

''', 1))

# ------------------------------------------------------------------ sgp4
add('sgp4-from', rx(P + 'sgp4.rs', r'(?s)        let dspace_options = crate::propogation::dspace::DspaceOptions \{\n.*?        let dspace_result = .*?;\n\n', '''        let dspace_result = crate::propogation::dspace::dspace(crate::propogation::dspace::DspaceOptions {
            tc,
            em,
            argpm,
            inclm,
            mm,
            nodem,
            nm,
            ..(&*satrec).into()
        });

''', 1), rx(P + 'dspace.rs', r'pub struct DspaceResult \{', '''impl From<&crate::io::Satrec> for DspaceOptions {
    /// The coefficients of a record, with its elements at epoch.
    fn from(s: &crate::io::Satrec) -> Self {
        DspaceOptions {
            irez: s.irez,
            d2201: s.d2201, d2211: s.d2211, d3210: s.d3210, d3222: s.d3222, d4410: s.d4410,
            d4422: s.d4422, d5220: s.d5220, d5232: s.d5232, d5421: s.d5421, d5433: s.d5433,
            dedt: s.dedt, del1: s.del1, del2: s.del2, del3: s.del3,
            didt: s.didt, dmdt: s.dmdt, dnodt: s.dnodt, domdt: s.domdt,
            argpo: s.argpo, argpdot: s.argpdot,
            t: s.t, tc: s.t, gsto: s.gsto, xfact: s.xfact, xlamo: s.xlamo, no: s.no,
            atime: s.atime, em: s.ecco, argpm: s.argpo, inclm: s.inclo,
            xli: s.xli, mm: s.mo, xni: s.xni, nodem: s.nodeo, nm: s.no,
        }
    }
}

pub struct DspaceResult {''', 1))
add('sgp4-kepler-struct', rx(P + 'sgp4.rs', r'(?s)    eo1 = u;\n    tem5 = 9999\.9;\n.*?        ktr \+= 1;\n    \}\n', '''    let kepler = Kepler { axnl, aynl, u };
    let (s, c) = kepler.solve();
    sineo1 = s;
    coseo1 = c;
''', 1), sub(P + 'sgp4.rs', '    let mut eo1;\n', ''), sub(P + 'sgp4.rs', '    let mut tem5: f64;\n', ''), sub(P + 'sgp4.rs', 'pub fn sgp4(', '''struct Kepler {
    axnl: f64,
    aynl: f64,
    u: f64,
}

impl Kepler {
    /// Newton correction, limited, at an anomaly.
    fn correction(&self, e: f64) -> f64 {
        let (s, c) = e.sin_cos();
        let slope = 1.0 - c * self.axnl - s * self.aynl;
        let step = (self.u - self.aynl * c + self.axnl * s - e) / slope;
        if step.abs() < 0.95 {
            step
        } else {
            0.95f64.copysign(step)
        }
    }

    /// Sine and cosine of the anomaly the last correction was taken at.
    fn solve(&self) -> (f64, f64) {
        let mut at = self.u;
        let mut last = at;
        for _ in 0..10 {
            last = at;
            let step = self.correction(at);
            at += step;
            if step.abs() < 1.0e-12 {
                break;
            }
        }
        last.sin_cos()
    }
}

pub fn sgp4('''))
add('sgp4-kepler-recursive', rx(P + 'sgp4.rs', r'(?s)    eo1 = u;\n    tem5 = 9999\.9;\n.*?        ktr \+= 1;\n    \}\n', '''    let _ = (&mut eo1, &mut tem5);
    let e = anomaly(u, axnl, aynl, u, 10);
    sineo1 = e.sin();
    coseo1 = e.cos();
''', 1), sub(P + 'sgp4.rs', '    let mut eo1;\n', '    let mut eo1 = 0.0;\n'), sub(P + 'sgp4.rs', '    let mut tem5: f64;\n', '    let mut tem5: f64 = 0.0;\n'),
    sub(P + 'sgp4.rs', 'pub fn sgp4(', '''fn anomaly(u: f64, axnl: f64, aynl: f64, e: f64, rounds: u8) -> f64 {
    let (s, c) = (e.sin(), e.cos());
    let step = ((u - aynl * c + axnl * s - e) / (1.0 - c * axnl - s * aynl)).max(-0.95).min(0.95);
    if rounds <= 1 || step.abs() < 1.0e-12 {
        e
    } else {
        anomaly(u, axnl, aynl, e + step, rounds - 1)
    }
}

pub fn sgp4('''))
add('sgp4-drag-fn', rx(P + 'sgp4.rs', r'(?s)    if satrec\.isimp != 1 \{\n.*?    \}\n    nm = satrec\.no;\n', '''    if satrec.isimp != 1 {
        let t = satrec.t;
        let poly = |c: [f64; 4]| c.iter().rev().fold(0.0, |s, k| (s + k) * t);
        delomg = satrec.omgcof * t;
        delm = satrec.xmcof * ((1.0 + satrec.eta * xmdf.cos()).powi(3) - satrec.delmo);
        mm += delomg + delm;
        argpm -= delomg + delm;
        tempa = 1.0 - poly([satrec.cc1, satrec.d2, satrec.d3, satrec.d4]);
        tempe += satrec.bstar * satrec.cc5 * (mm.sin() - satrec.sinmao);
        templ += t * t * t * (satrec.t3cof + t * (satrec.t4cof + t * satrec.t5cof));
    }
    nm = satrec.no;
''', 1), sub(P + 'sgp4.rs', '    let t3;\n    let t4;\n', ''))
add('sgp4-result-chain', rx(P + 'sgp4.rs', r'(?s)    // sgp4fix for decaying satellites\n.*?\n\}\n', '''    if mrt >= 1.0 {
        Ok(SGP4Result { position: r, velocity: v })
    } else {
        let e = SGP4Error::DecayCondition;
        satrec.error = u32::from(e.code());
        Err(e)
    }
}
''', 1))
add('sgp4-state-fn', rx(P + 'sgp4.rs', r'(?s)    // --------------------- orientation vectors -+\n.*?    // sgp4fix for decaying satellites\n', '''    let (r, v) = cartesian(mrt, mvt, rvdot, su, xnode, xinc, vkmpersec);

''', 1), sub(P + 'sgp4.rs', 'pub fn sgp4(', '''/// Position and velocity from radius, rates, argument of latitude, node and inclination.
fn cartesian(radius: f64, rate: f64, along: f64, su: f64, node: f64, inc: f64, speed: f64) -> (Eci, Vec3) {
    let [(ss, cs), (sn, cn), (si, ci)] = [su, node, inc].map(f64::sin_cos);
    let u = [cn * cs - sn * ci * ss, sn * cs + cn * ci * ss, si * ss];
    let w = [-cn * ss - sn * ci * cs, cn * ci * cs - sn * ss, si * cs];
    let at = |k: usize| radius * u[k] * EARTH_RADIUS;
    let by = |k: usize| (rate * u[k] + along * w[k]) * speed;
    (Eci { x: at(0), y: at(1), z: at(2) }, Vec3 { x: by(0), y: by(1), z: by(2) })
}

pub fn sgp4('''))
add('sgp4-local-coefs', rx(P + 'sgp4.rs', r'(?s)    let mrt =\n.*?    // --------------------- orientation', '''    let (k41, k12, k71) = (satrec.con41, satrec.x1mth2, satrec.x7thm1);
    let (half, full) = (temp1, temp2);
    let mrt = rl - rl * 1.5 * full * betal * k41 + 0.5 * half * k12 * cos2u;
    su = su - full * k71 * sin2u / 4.0;
    let xnode = 1.5 * full * cosip * sin2u + nodep;
    let xinc = 1.5 * full * cosip * sinip * cos2u + xincp;
    let mvt = rdotl - nm * half * k12 * sin2u / XKE;
    let rvdot = rvdotl + nm * half * (k12 * cos2u + 1.5 * k41) / XKE;

    // --------------------- orientation''', 1))

# ------------------------------------------------------------------ deep space
TERMS = r'(?s)                xndt = \(d2201 .*?                xldot = xni \+ xfact;\n                xnddt = \(d2201.*?\);\n'
add('dspace-table', rx(P + 'dspace.rs', TERMS, '''                let _ = (x2omi, x2li);
                let table = [
                    (d2201, 2.0, 1.0, G22), (d2211, 0.0, 1.0, G22), (d3210, 1.0, 1.0, G32), (d3222, -1.0, 1.0, G32),
                    (d4410, 2.0, 2.0, G44), (d4422, 0.0, 2.0, G44), (d5220, 1.0, 1.0, G52), (d5232, -1.0, 1.0, G52),
                    (d5421, 1.0, 2.0, G54), (d5433, -1.0, 2.0, G54),
                ];
                xldot = xni + xfact;
                xndt = table.iter().map(|&(d, a, b, g)| d * (a * xomi + b * xli - g).sin()).sum();
                xnddt = table.iter().map(|&(d, a, b, g)| b * d * (a * xomi + b * xli - g).cos()).sum();
''', 1))
add('dspace-day-table', rx(P + 'dspace.rs', r'(?s)                xndt = \(del1 .*?                xnddt \*= xldot;\n            \} else', '''                xldot = xni + xfact;
                xndt = 0.0;
                xnddt = 0.0;
                for (k, (d, f)) in [(del1, FASX2), (del2, FASX4), (del3, FASX6)].iter().enumerate() {
                    let m = (k + 1) as f64;
                    let (s, c) = (m * (xli - f)).sin_cos();
                    xndt += d * s;
                    xnddt += m * d * c;
                }
                xnddt *= xldot;
            } else''', 1))
add('dspace-secular', rx(P + 'dspace.rs', r'(?s)    em \+= dedt \* t;\n.*?    mm \+= dmdt \* t;\n', '''    let drifts = [(&mut em, dedt), (&mut inclm, didt), (&mut argpm, domdt), (&mut nodem, dnodt), (&mut mm, dmdt)];
    for (value, rate) in drifts {
        *value += rate * t;
    }
''', 1))
add('dscom-bodies', rx(P + 'dscom.rs', r'    let mut lsflg = 0;\n    while lsflg < 2 \{\n        lsflg \+= 1;\n', '''    for body in [Body::Sun, Body::Moon] {
''', 1), sub(P + 'dscom.rs', '        if lsflg == 1 {\n', '        if let Body::Sun = body {\n'), sub(P + 'dscom.rs', 'pub fn dscom(', '''enum Body {
    Sun,
    Moon,
}

pub fn dscom('''))
add('dscom-squares', rx(P + 'dscom.rs', r'(?s)        z31 = \(12\.0 \* x1.*?        z1 = \(3\.0', '''        let mix = |a: f64, b: f64, c: f64, d: f64| 12.0 * a * b - 3.0 * c * d;
        z31 = mix(x1, x1, x3, x3);
        z32 = 2.0 * mix(x1, x2, x3, x4);
        z33 = mix(x2, x2, x4, x4);

        z1 = (3.0''', 1))
add('dsinit-enum', rx(P + 'dsinit.rs', r'(?s)    irez = 0\.0;\n    if \(nm < 0\.0052.*?        irez = 2\.0;\n    \}\n', '''    let half_day = (8.26e-3..=9.24e-3).contains(&nm) && em >= 0.5;
    let whole_day = nm > 0.0034906585 && nm < 0.0052359877;
    irez = match (half_day, whole_day) {
        (true, _) => 2.0,
        (false, true) => 1.0,
        (false, false) => 0.0,
    };
''', 1))
add('dsinit-flat', rx(P + 'dsinit.rs', r'(?s)    let mut shs = -ZNS \* ss2.*?    let sgs = ', '''    let flat = inclm.min(PI - inclm) < 5.2359877e-2;
    let shs = match sinim {
        _ if flat => 0.0,
        s if s == 0.0 => -ZNS * ss2 * (sz21 + sz23),
        s => -ZNS * ss2 * (sz21 + sz23) / s,
    };
    let sgs = ''', 1), rx(P + 'dsinit.rs', r'(?s)    let mut shll = .*?    domdt = sgs', '''    let shll = if flat { 0.0 } else { -ZNL * s2 * (z21 + z23) };
    domdt = sgs''', 1))
add('dpper-match', rx(P + 'dpper.rs', r'(?s)    zm = zmos \+ \(ZNS \* t\);\n.*?        zm = zmos;\n    \}\n', '''    let elapsed = match init {
        DpperInit::Y => 0.0,
        DpperInit::N => t,
    };
    zm = ZNS.mul_add(elapsed, zmos);
''', 1), rx(P + 'dpper.rs', r'(?s)    zm = zmol \+ \(ZNL \* t\);\n.*?        zm = zmol;\n    \}\n', '''    zm = ZNL.mul_add(elapsed, zmol);
''', 1))
add('dpper-early', rx(P + 'dpper.rs', r'(?s)        if inclp >= 0\.2 \{\n(.*?)        \} else \{\n            //  ---- apply', r'''        if inclp >= 0.2 {
\1            return DpperResult { ep, inclp, nodep, argpp, mp };
        }
        {
            //  ---- apply''', 1))
add('dpper-wrap-fn', rx(P + 'dpper.rs', r'(?s)            if \(xnoh - nodep\)\.abs\(\) > std::f64::consts::PI \{\n.*?\n            \}\n            mp \+= pl;', '''            nodep += match xnoh - nodep {
                d if d > std::f64::consts::PI => TWO_PI,
                d if d < -std::f64::consts::PI => -TWO_PI,
                _ => 0.0,
            };
            mp += pl;''', 1))

# ------------------------------------------------------------------ io
NAME = r'''/// The text of a name line, without its line number.
fn name_of(line: &str) -> Option<String> {
    let text = match line.as_bytes().first() {
        Some(b'0') => line.get(2..).unwrap_or_default(),
        _ => line,
    };
    Some(text.trim().to_owned())
}

'''
add('io-name-fn', rx('io.rs', r"(?s)\n *if \(lines\[0\]\.bytes\(\).*?\n *\} else \{.*?\n *\}\n", '''
                satrec.name = name_of(lines[0]);
''', 1), rx('io.rs', r"(?s)\n *if \(lines\[i\]\.bytes\(\).*?\n *\} else \{.*?\n *\}\n", '''
                    rec.name = name_of(lines[i]);
''', 1), sub('io.rs', 'pub fn parse_multiple(', NAME + 'pub fn parse_multiple('))
add('io-fromstr', sub('io.rs', 'pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {\n', '''pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
    string.parse()
}

impl std::str::FromStr for Satrec {
    type Err = SatrecParseError;

    fn from_str(string: &str) -> Result<Satrec, SatrecParseError> {
        load(string)
    }
}

fn load(string: &str) -> Result<Satrec, SatrecParseError> {
'''))
add('io-generic', rx('io.rs', r'(?s)fn parse_float\(.*?\n\}\n\nfn parse_int\(.*?\n\}\n', '''type Complaint = fn(&'static str, usize, usize, String) -> SatrecParseError;

/// A field read as a number that passes a test, or the complaint about it.
fn number<T: std::str::FromStr>(line: &str, name: &'static str, low: usize, high: usize, test: impl Fn(&T) -> bool, bad: Complaint) -> Result<T, SatrecParseError> {
    let text = columns(line, name, low, high)?;
    text.trim().parse::<T>().ok().filter(test).ok_or_else(|| bad(name, low, high, text.to_string()))
}

fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
    number(line, name, low, high, |x: &f64| x.is_finite(), SatrecParseError::FloatParseError)
}

fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<i64, SatrecParseError> {
    number(line, name, low, high, |_| true, SatrecParseError::IntParseError)
}
''', 1))
add('io-question', rx('io.rs', r'(?s)    match sgp4init::sgp4init\(&mut satrec, opts\) \{\n.*?    \};\n\n    return Ok\(satrec\);\n\}\n', '''    sgp4init::sgp4init(&mut satrec, opts)?;
    Ok(satrec)
}

impl From<SGP4Error> for SatrecParseError {
    fn from(e: SGP4Error) -> Self {
        SatrecParseError::Sgp4InitError(e)
    }
}
''', 1))
add('io-groups', fn('io.rs', 'parse_multiple', '''
pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
    let lines: Vec<&str> = string.split('\\n').filter(|line| !line.trim().is_empty()).collect();
    let mut recs = Vec::new();
    let mut errors = Vec::new();
    let mut start = 0;

    while start < lines.len() {
        let rest = &lines[start..];
        let headless = rest.len() >= 2 && rest[0].starts_with('1') && rest[1].starts_with('2');
        let named = rest.len() >= 3 && !headless;
        let size = rest.len().min(if named { 3 } else { 2 });
        let outcome = match &rest[..size] {
            [title, one, two] => twoline2satrec(one, two).map(|mut rec| {
                let title = if title.starts_with('0') { title.get(2..).unwrap_or("") } else { title };
                rec.name = Some(title.trim().to_string());
                rec
            }),
            [one, two] => twoline2satrec(one, two),
            _ => Err(SatrecParseError::InvalidTLEBadLineCount),
        };
        match outcome {
            Ok(rec) => recs.push(rec),
            Err(err) => errors.push(SatrecParseError::SatrecMultiError(start, Box::new(err))),
        }
        start += size;
    }

    (recs, errors)
}
'''))
add('io-scanner', fn('io.rs', 'parse_multiple', '''
/// Takes sets off a list of lines.
struct Sets<'a> {
    lines: Vec<&'a str>,
    at: usize,
}

impl<'a> Sets<'a> {
    fn kind(&self, k: usize) -> Option<u8> {
        self.lines.get(self.at + k).map(|line| line.as_bytes()[0])
    }
}

impl<'a> Iterator for Sets<'a> {
    type Item = Result<Satrec, SatrecParseError>;

    fn next(&mut self) -> Option<Self::Item> {
        let at = self.at;
        let left = self.lines.len() - at;
        let (title, one) = match left {
            0 => return None,
            1 => {
                self.at += 1;
                let e = SatrecParseError::InvalidTLEBadLineCount;
                return Some(Err(SatrecParseError::SatrecMultiError(at, Box::new(e))));
            }
            2 => (None, at),
            _ if self.kind(0) == Some(b'1') && self.kind(1) == Some(b'2') => (None, at),
            _ => (Some(self.lines[at]), at + 1),
        };
        self.at = one + 2;
        Some(match twoline2satrec(self.lines[one], self.lines[one + 1]) {
            Ok(mut rec) => {
                if let Some(title) = title {
                    let skip = if title.as_bytes()[0] == b'0' { 2 } else { 0 };
                    rec.name = Some(title.get(skip..).unwrap_or("").trim().to_string());
                }
                Ok(rec)
            }
            Err(e) => Err(SatrecParseError::SatrecMultiError(at, Box::new(e))),
        })
    }
}

pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
    let lines = string.split("\\n").filter(|el| el.trim() != "").collect();
    let mut recs = vec![];
    let mut errors = vec![];
    for set in (Sets { lines, at: 0 }) {
        match set {
            Ok(rec) => recs.push(rec),
            Err(e) => errors.push(e),
        }
    }
    (recs, errors)
}
'''))
add('io-split-check', fn('io.rs', 'parse', '''
pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
    let lines: Vec<_> = string.split("\\n").filter(|el| el.trim() != "").collect();
    let (name, one, two) = match lines[..] {
        [one, two] => (None, one, two),
        [name, one, two] => (Some(name), one, two),
        _ => return Err(SatrecParseError::InvalidTLEBadLineCount),
    };

    if !one.starts_with('1') || !two.starts_with('2') {
        return Err(SatrecParseError::InvalidTLELineCheckFailed);
    }

    let mut satrec = twoline2satrec(one, two)?;
    satrec.name = name.map(|name| match name.starts_with('0') {
        true => name.get(2..).unwrap_or("").trim().to_string(),
        false => name.trim().to_string(),
    });
    Ok(satrec)
}
'''))
add('io-record-literal', rx('io.rs', r'(?s)    let mut satrec = Satrec::zero\(\);\n\n    satrec\.operationmode.*?    return Ok\(satrec\);\n', '''    Ok(Satrec {
        operationmode: DpperOpsMode::I,
        satnum: satnum.into(),
        epochyr,
        epochdays,
        ndot,
        nddot,
        bstar,
        inclo,
        nodeo,
        ecco,
        argpo,
        mo,
        no,
        a,
        alta,
        altp,
        jdsatepoch,
        ..Satrec::zero()
    })
''', 1))
add('io-epoch-fn', rx('io.rs', r'(?s)    let year;\n.*?    let mut satrec = Satrec::zero', '''    let jdsatepoch = epoch(epochyr, epochdays);

    let mut satrec = Satrec::zero''', 1), sub('io.rs', 'pub fn parse_satrec(', '''/// Julian date of the epoch of a set.
fn epoch(yy: i64, days: f64) -> f64 {
    let century = if yy >= 57 { 1900 } else { 2000 };
    let year = century + yy;
    let ext::MDHMS { month, day, hour, minute, second } = ext::days2mdhms(year as u64, days);
    ext::jday(year as f64, month, day, hour, minute, second, 0.0)
}

pub fn parse_satrec('''))
add('io-size-fn', rx('io.rs', r'(?s)    let a = \(no \* TUMIN\).*?    let altp = .*?\n', '''    let a = 1.0 / (no * TUMIN).powf(2.0 / 3.0);
    let [altp, alta] = [-ecco, ecco].map(|e| a * (1.0 + e) - 1.0);
''', 1))
