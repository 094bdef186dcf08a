"""Edits of /repo that keep its behaviour, on which every check has to stay quiet.
sub: textual replacement (must occur n times); fn: replacement of a whole top-level function."""
import re

def fnspan(t, name):
    m = re.search(r'^(pub )?fn %s\b' % name, t, re.M)
    i = m.start()
    j = t.index('\n}\n', i) + 3
    return i, j

class R:
    def __init__(self, id, *eds):
        self.id = id; self.eds = eds

def sub(f, a, b, n=1): return ('sub', f, a, b, n)
def fn(f, name, b): return ('fn', f, name, b)
def rx(f, a, b, n=None): return ('rx', f, a, b, n)

def apply(root, r):
    for e in r.eds:
        p = '%s/src/%s' % (root, e[1]); t = open(p).read()
        if e[0] == 'sub':
            if t.count(e[2]) != e[4]: raise Exception('%s: %d of %r' % (r.id, t.count(e[2]), e[2]))
            t = t.replace(e[2], e[3])
        elif e[0] == 'fn':
            i, j = fnspan(t, e[2]); t = t[:i] + e[3].strip('\n') + '\n' + t[j:]
        else:
            t, k = re.subn(e[2], e[3], t)
            if k == 0 or e[4] is not None and k != e[4]: raise Exception('%s: %d of %r' % (r.id, k, e[2]))
        open(p, 'w').write(t)

P = 'propogation/'
L = []
def add(*a): L.append(R(*a))

# ------------------------------------------------------------------ ext
add('days-for', fn('ext.rs', 'days2mdhms', r'''
fn is_leap(year: u64) -> bool { year % 4 == 0 }

pub fn days2mdhms(year: u64, days: f64) -> MDHMS {
    let lmonth: [u64; 12] = [31, if is_leap(year) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let dayofyr = days.floor() as u64;
    let mut month = 12;
    let mut before = 0u64;
    for (k, len) in lmonth.iter().enumerate() {
        if k == 11 || dayofyr <= before + len {
            month = k + 1;
            break;
        }
        before += len;
    }
    let day = (dayofyr - before) as f64;
    let frac = (days - dayofyr as f64) * 24.0;
    let hour = frac.floor();
    let minutes = (frac - hour) * 60.0;
    let minute = minutes.floor();
    MDHMS { month: month as f64, day, hour, minute, second: (minutes - minute) * 60.0 }
}
'''))
add('days-loop', fn('ext.rs', 'days2mdhms', r'''
const MONTHS: [u64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];

fn month_length(year: u64, i: usize) -> u64 {
    if i == 1 && year % 4 == 0 { 29 } else { MONTHS[i] }
}

pub fn days2mdhms(year: u64, days: f64) -> MDHMS {
    let dayofyr = days.floor() as u64;
    let mut left = dayofyr;
    let mut i = 0usize;
    loop {
        let n = month_length(year, i);
        if left <= n || i == 11 { break; }
        left -= n;
        i += 1;
    }
    let mut temp = (days - dayofyr as f64) * 24.0;
    let hour = temp.floor();
    temp = (temp - hour) * 60.0;
    let minute = temp.floor();
    let second = (temp - minute) * 60.0;
    MDHMS { month: (i + 1) as f64, hour, day: left as f64, minute, second }
}
'''))
add('days-seconds', sub('ext.rs', '''    let mut temp = (days - dayofyr as f64) * 24.0;
    let hour = temp.floor();
    temp = (temp - hour as f64) * 60.0;
    let minute = temp.floor();
    let second = (temp - minute as f64) * 60.0;
''', '''    let seconds = (days - days.floor()) * 86400.0;
    let hour = (seconds / 3600.0).floor();
    let minute = ((seconds - hour * 3600.0) / 60.0).floor();
    let second = seconds - hour * 3600.0 - minute * 60.0;
'''))
add('jday-helper', fn('ext.rs', 'jday', r'''
fn day_fraction(hr: f64, minute: f64, sec: f64, msec: f64) -> f64 {
    let minutes = minute + sec / 60.0 + msec / 60000.0;
    (hr + minutes / 60.0) / 24.0
}

fn day_number(year: f64, mon: f64, day: f64) -> f64 {
    let a = (7.0 * (year + ((mon + 9.0) / 12.0).floor()) / 4.0).floor();
    let b = (275.0 * mon / 9.0).floor();
    367.0 * year - a + b + day + 1721013.5
}

pub fn jday(year: f64, mon: f64, day: f64, hr: f64, minute: f64, sec: f64, msec: f64) -> f64 {
    day_number(year, mon, day) + day_fraction(hr, minute, sec, msec)
}
'''))
add('jday-datetime', fn('ext.rs', 'jday_datetime', r'''
pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
    let (y, m, d) = (f64::from(time.year()), f64::from(time.month()), f64::from(time.day()));
    let seconds = time.second() as f64 + f64::from(time.nanosecond()) * 1.0e-9;
    jday(y, m, d, time.hour() as f64, time.minute() as f64, seconds, 0.0)
}
'''))
add('jday-msec', sub('ext.rs', 'time.nanosecond() as f64 / 1.0e6', '{ let ns = time.nanosecond() as f64; ns * 1.0e-6 }'),
    sub('ext.rs', '(((((msec / 60000.0) + (sec / 60.0) + minute) / 60.0) + hr) / 24.0)', '((msec / 1000.0 + sec) + 60.0 * (minute + 60.0 * hr)) / 86400.0'))

# ------------------------------------------------------------------ gstime
add('gst-horner', fn(P + 'gstime.rs', 'gstime', r'''
pub fn gstime(jdut1: f64) -> f64 {
    let t = (jdut1 - 2451545.0) / 36525.0;
    let seconds = 67310.54841 + t * (876600.0 * 3600.0 + 8640184.812866 + t * (0.093104 - 6.2e-6 * t));
    let angle = (seconds * DEG_2_RAD / 240.0) % TWO_PI;
    if angle < 0.0 { angle + TWO_PI } else { angle }
}
'''))
add('gst-rem', sub(P + 'gstime.rs', '''    temp = ((temp * DEG_2_RAD) / 240.0) % TWO_PI; // 360/86400 = 1/240, to deg, to rad
''', '''    temp = ((temp * DEG_2_RAD) / 240.0).rem_euclid(TWO_PI);
'''), sub(P + 'gstime.rs', '''    if temp < 0.0 {
        temp += TWO_PI;
    }

''', ''))
add('gst-date', fn(P + 'gstime.rs', 'gstime_datetime', r'''
pub fn gstime_datetime(datetime: DateTime<Utc>) -> f64 {
    gstime(ext::jday_datetime(datetime))
}
'''), sub(P + 'gstime.rs', 'let mut temp = (-6.2e-6 * tut1 * tut1 * tut1)', 'let mut temp = (-6.2e-6 * tut1.powi(3))'))

# ------------------------------------------------------------------ vectors, doppler
add('vec-ops', sub('lib.rs', '''        (((self.x - to.x).powf(2.0)) + ((self.y - to.y).powf(2.0)) + ((self.z - to.z).powf(2.0)))
            .sqrt()
''', '''        let d = self.subtract(to);
        d.dot(&d).sqrt()
    }

    fn dot(&self, by: &Vec3) -> f64 {
        self.x * by.x + self.y * by.y + self.z * by.z
'''))
add('vec-array', sub('lib.rs', '''        (((self.x - to.x).powf(2.0)) + ((self.y - to.y).powf(2.0)) + ((self.z - to.z).powf(2.0)))
            .sqrt()
''', '''        let a = [self.x, self.y, self.z];
        let b = [to.x, to.y, to.z];
        a.iter().zip(b.iter()).map(|(p, q)| (p - q) * (p - q)).sum::<f64>().sqrt()
'''))
add('vec-trait', sub('lib.rs', '''    pub fn add(&self, by: &Vec3) -> Vec3 {
        Vec3 {
            x: self.x + by.x,
            y: self.y + by.y,
            z: self.z + by.z,
        }
    }
''', '''    fn combine<F: Fn(f64, f64) -> f64>(&self, by: &Vec3, f: F) -> Vec3 {
        Vec3 { x: f(self.x, by.x), y: f(self.y, by.y), z: f(self.z, by.z) }
    }

    pub fn add(&self, by: &Vec3) -> Vec3 {
        self.combine(by, |a, b| a + b)
    }
'''), sub('lib.rs', '''        Vec3 {
            x: self.x - by.x,
            y: self.y - by.y,
            z: self.z - by.z,
        }
''', '''        self.combine(by, |a, b| a - b)
'''))
add('vec-hypot', sub('lib.rs', '''        (((self.x - to.x).powf(2.0)) + ((self.y - to.y).powf(2.0)) + ((self.z - to.z).powf(2.0)))
            .sqrt()
''', '''        (self.x - to.x).hypot(self.y - to.y).hypot(self.z - to.z)
'''))
add('doppler', fn('doppler_factor.rs', 'doppler_factor', r'''
fn range_after(location: &Vec3, position: &Vec3, velocity: &Vec3, seconds: f64) -> f64 {
    let at = Vec3 {
        x: position.x + velocity.x * seconds,
        y: position.y + velocity.y * seconds,
        z: position.z + velocity.z * seconds,
    };
    at.range(location)
}

pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
    let rate = range_after(&location, &position, &velocity, 0.0) - range_after(&location, &position, &velocity, 1.0);
    1.0 + rate / C
}
'''))

# ------------------------------------------------------------------ transforms
add('range-check', sub('transforms.rs', '''    if radians < -std::f64::consts::FRAC_PI_2 || radians > std::f64::consts::FRAC_PI_2 {
        panic!("Range error: Latitude radians must be in range [-pi/2; pi/2].")
    }

    radians_to_degrees(radians)''', '''    match in_range(radians, std::f64::consts::FRAC_PI_2) {
        true => radians_to_degrees(radians),
        false => panic!("Range error: Latitude radians must be in range [-pi/2; pi/2]."),
    }'''), sub('transforms.rs', 'pub fn degrees_lat', '''fn in_range(angle: f64, bound: f64) -> bool {
    !(angle.abs() > bound)
}

pub fn degrees_lat'''),
    sub('transforms.rs', '''    if degrees < -180.0 || degrees > 180.0 {
        panic!("RangeError: Latitude degrees must be in range [-180; 180].")
    }
''', '''    assert!(degrees >= -180.0 && degrees <= 180.0, "RangeError: Latitude degrees must be in range [-180; 180].");
'''), sub('transforms.rs', '''    if degrees < -90.0 || degrees > 90.0 {''', '''    if !(-90.0..=90.0).contains(&degrees) {'''))
add('geodetic-helpers', fn('transforms.rs', 'geodedic_to_ecf', r'''
const WGS84_A: f64 = 6378.137;
const WGS84_B: f64 = 6356.7523142;
const WGS84_E2: f64 = 1.0 - (WGS84_B / WGS84_A) * (WGS84_B / WGS84_A);

fn prime_vertical(sin_lat: f64) -> f64 {
    WGS84_A / (1.0 - WGS84_E2 * sin_lat * sin_lat).sqrt()
}

pub fn geodedic_to_ecf(geodetic: &Geodedic) -> Ecf {
    let (slat, clat) = geodetic.latitude.sin_cos();
    let (slon, clon) = geodetic.longitude.sin_cos();
    let n = prime_vertical(slat);
    let axis = (n + geodetic.height) * clat;
    Vec3 { x: axis * clon, y: axis * slon, z: (n * (1.0 - WGS84_E2) + geodetic.height) * slat }
}
'''))
add('geodetic-for', sub('transforms.rs', '''    let mut k: i32 = 0;
    let mut c: f64 = 0.0;

    while k < KMAX {
        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
        latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
        k += 1;
    }
''', '''    let mut c: f64 = 0.0;

    for _ in 0..KMAX {
        let s = latitude.sin();
        c = (1.0 - E2 * s * s).sqrt().recip();
        latitude = (eci.z + A * c * E2 * s).atan2(r);
    }
'''), sub('transforms.rs', '''    while longitude < -PI {
        longitude += TWO_PI;
    }

    while longitude > PI {
        longitude -= TWO_PI;
    }
''', '''    if longitude < -PI {
        longitude += TWO_PI;
    } else if longitude > PI {
        longitude -= TWO_PI;
    }
'''), sub('transforms.rs', 'eci.z.atan2((eci.x.powi(2) + eci.y.powi(2)).sqrt())', 'eci.z.atan2(r)'))
add('geodetic-fold', sub('transforms.rs', '''    let mut k: i32 = 0;
    let mut c: f64 = 0.0;

    while k < KMAX {
        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
        latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
        k += 1;
    }
''', '''    let step = |la: f64| -> (f64, f64) {
        let c = 1.0 / (1.0 - (E2 * la.sin().powi(2))).sqrt();
        ((eci.z + (A * c * E2 * la.sin())).atan2(r), c)
    };
    let (la, c) = (0..KMAX).fold((latitude, 0.0), |(la, _), _| step(la));
    latitude = la;
'''), sub('transforms.rs', 'let r: f64 = ((eci.x * eci.x) + (eci.y * eci.y)).sqrt();', 'let r: f64 = eci.x.hypot(eci.y);'))
add('rotate', fn('transforms.rs', 'ecf_to_eci', r'''
fn rotate_z(v: &Vec3, angle: f64) -> Vec3 {
    let (s, c) = angle.sin_cos();
    Vec3 { x: v.x * c - v.y * s, y: v.x * s + v.y * c, z: v.z }
}

pub fn ecf_to_eci(ecf: &Ecf, gmst: f64) -> Eci {
    rotate_z(ecf, gmst)
}
'''), fn('transforms.rs', 'eci_to_ecf', r'''
pub fn eci_to_ecf(eci: &Eci, gmst: f64) -> Ecf {
    rotate_z(eci, -gmst)
}
'''))
add('topo', fn('transforms.rs', 'topocentric', r'''
pub fn topocentric(observer: &Geodedic, satellite: &Ecf) -> TopoCentric {
    let r = satellite.subtract(&geodedic_to_ecf(observer));
    let (slat, clat) = (observer.latitude.sin(), observer.latitude.cos());
    let (slon, clon) = (observer.longitude.sin(), observer.longitude.cos());
    // component in the equatorial plane, towards the observer's meridian
    let meridian = clon * r.x + slon * r.y;
    TopoCentric { top_s: slat * meridian - clat * r.z, top_e: clon * r.y - slon * r.x, top_z: clat * meridian + slat * r.z }
}
'''), fn('transforms.rs', 'topocentric_to_look_angles', r'''
pub fn topocentric_to_look_angles(tc: &TopoCentric) -> Bearing {
    let TopoCentric { top_s, top_e, top_z } = tc;
    let range = (top_s * top_s + top_e * top_e + top_z * top_z).sqrt();
    Bearing {
        range,
        elevation: (top_z / range).asin(),
        azimuth: std::f64::consts::PI + (-top_e).atan2(*top_s),
    }
}
'''))

# ------------------------------------------------------------------ initl, sgp4init
add('initl', sub(P + 'initl.rs', '''    let ak = (XKE / no).powf(X2O3);
''', '''    let semi_major = |n: f64| (XKE / n).powf(X2O3);
    let ak = semi_major(no);
'''), sub(P + 'initl.rs', 'let ao = (XKE / no).powf(X2O3);', 'let ao = semi_major(no);'),
    sub(P + 'initl.rs', '''    no /= 1.0 + del_prime;
''', '''    no = no / (del_prime + 1.0);
'''), sub(P + 'initl.rs', 'let con41 = -con42 - cosio2 - cosio2;', 'let con41 = 3.0 * cosio2 - 1.0;'))
add('initl-match', sub(P + 'initl.rs', '''    let mut gsto;
    if opsmode == DpperOpsMode::A {''', '''    let mut gsto;
    if let DpperOpsMode::I = opsmode {
        gsto = gstime::gstime(epoch + 2433281.5);
    } else {'''), sub(P + 'initl.rs', '''    } else {
        gsto = gstime::gstime(epoch + 2433281.5);
    }
''', '''    }
'''))
add('init-zero', rx(P + 'sgp4init.rs', r'(?s)    // -+ set all near earth variables to zero -+\n.*?satrec\.xni = 0\.0;\n', '''    clear_derived(satrec);
'''), sub(P + 'sgp4init.rs', 'pub fn sgp4init(', '''fn clear_derived(satrec: &mut Satrec) {
    let old = std::mem::replace(satrec, Satrec::zero());
    satrec.name = old.name;
    satrec.satnum = old.satnum;
    satrec.epochyr = old.epochyr;
    satrec.epochdays = old.epochdays;
    satrec.ndot = old.ndot;
    satrec.nddot = old.nddot;
    satrec.a = old.a;
    satrec.alta = old.alta;
    satrec.altp = old.altp;
    satrec.jdsatepoch = old.jdsatepoch;
}

pub fn sgp4init('''))
add('init-atmosphere', sub(P + 'sgp4init.rs', '''        sfour = ss;
        qzms24 = qzms2t;
        perige = (rp - 1.0) * EARTH_RADIUS;
''', '''        perige = (rp - 1.0) * EARTH_RADIUS;
'''), rx(P + 'sgp4init.rs', r'(?s)        if perige < 156\.0 \{.*?\n        \}\n', '''        let (sfour, qzms24) = density(perige, ss, qzms2t);
''', 1), sub(P + 'sgp4init.rs', 'pub fn sgp4init(', '''fn density(perige: f64, ss: f64, qzms2t: f64) -> (f64, f64) {
    if perige >= 156.0 {
        return (ss, qzms2t);
    }
    let s = if perige < 98.0 { 20.0 } else { perige - 78.0 };
    (s / EARTH_RADIUS + 1.0, ((120.0 - s) / EARTH_RADIUS).powi(4))
}

pub fn sgp4init('''), sub(P + 'sgp4init.rs', '    let mut qzms24;\n', ''), sub(P + 'sgp4init.rs', '    let mut sfour;\n', ''))
add('init-misc', sub(P + 'sgp4init.rs', '''        satrec.isimp = 0;
        // TODO: logic mode error.
        if rp < (220.0 / EARTH_RADIUS) + 1.0 {
            satrec.isimp = 1;
        }
''', '''        satrec.isimp = i64::from(rp < (220.0 / EARTH_RADIUS) + 1.0);
'''), sub(P + 'sgp4init.rs', 'tsi.powi(4)', '(tsi * tsi) * (tsi * tsi)'),
    sub(P + 'sgp4init.rs', '''        cc3 = 0.0;
        if satrec.ecco > 1.0e-4 {
            cc3 = (-2.0 * coef * tsi * J3OJ2 * satrec.no * sinio) / satrec.ecco;
        }
''', '''        let eccentric = satrec.ecco > 1.0e-4;
        cc3 = if eccentric { -2.0 * coef * tsi * J3OJ2 * satrec.no * sinio / satrec.ecco } else { 0.0 };
'''), sub(P + 'sgp4init.rs', '''        if satrec.ecco > 1.0e-4 {
            satrec.xmcof''', '''        if eccentric {
            satrec.xmcof'''), sub(P + 'sgp4init.rs', '''    let mut cc3;
''', '''    let cc3;
'''), sub(P + 'sgp4init.rs', 'satrec.delmo = delmotemp * delmotemp * delmotemp;', 'satrec.delmo = delmotemp.powi(3);'),
    sub(P + 'sgp4init.rs', 'if TWO_PI / satrec.no >= 225.0 {', 'let period = TWO_PI / satrec.no;\n        if period >= 225.0 {'))
add('init-xlcof', rx(P + 'sgp4init.rs', r'(?s)        if \(cosio \+ 1\.0\)\.abs\(\) > 1\.5e-12 \{.*?\n        \}\n', '''        satrec.xlcof = crate::propogation::sgp4::xlcof(sinio, cosio);
''', 1), rx(P + 'sgp4.rs', r'(?s)        if \(cosip \+ 1\.0\)\.abs\(\) > 1\.5e-12 \{.*?\n        \}\n', '''        satrec.xlcof = xlcof(sinip, cosip);
''', 1), sub(P + 'sgp4.rs', 'pub fn sgp4(', '''/// Long-period coefficient, guarded against an inclination of 180 degrees.
pub(crate) fn xlcof(sini: f64, cosi: f64) -> f64 {
    let above = 1.0 + cosi;
    let divisor = if above.abs() > 1.5e-12 { above } else { 1.5e-12 };
    -0.25 * J3OJ2 * sini * (3.0 + 5.0 * cosi) / divisor
}

pub fn sgp4('''))

# ------------------------------------------------------------------ sgp4
add('kepler-fn', rx(P + 'sgp4.rs', r'(?s)    eo1 = u;\n    tem5 = 9999\.9;.*?ktr \+= 1;\n    \}\n', '''    let (s, c) = solve_kepler(u, axnl, aynl);
    sineo1 = s;
    coseo1 = c;
''', 1), sub(P + 'sgp4.rs', 'pub fn sgp4(', '''fn solve_kepler(u: f64, axnl: f64, aynl: f64) -> (f64, f64) {
    let mut e = u;
    let mut sc = (0.0, 0.0);
    for _ in 0..10 {
        sc = e.sin_cos();
        let (s, c) = sc;
        let mut step = (u - aynl * c + axnl * s - e) / (1.0 - c * axnl - s * aynl);
        if step.abs() >= 0.95 {
            step = if step > 0.0 { 0.95 } else { -0.95 };
        }
        e += step;
        if step.abs() < 1.0e-12 {
            break;
        }
    }
    sc
}

pub fn sgp4('''), sub(P + 'sgp4.rs', '    let mut eo1;\n', ''), sub(P + 'sgp4.rs', '    let mut tem5: f64;\n', ''))
add('kepler-clamp', sub(P + 'sgp4.rs', '''        if tem5.abs() >= 0.95 {
            if tem5 > 0.0 {
                tem5 = 0.95;
            } else {
                tem5 = -0.95;
            }
        }
''', '''        tem5 = tem5.min(0.95).max(-0.95);
'''), sub(P + 'sgp4.rs', '''    if em < 1.0e-6 {
        em = 1.0e-6;
    }
''', '''    em = em.max(1.0e-6);
'''))
add('kepler-copysign', sub(P + 'sgp4.rs', '''            if tem5 > 0.0 {
                tem5 = 0.95;
            } else {
                tem5 = -0.95;
            }
''', '''            tem5 = 0.95 * tem5.signum();
'''), sub(P + 'sgp4.rs', '''    let mut ktr = 1;
''', '''    let mut ktr = 0;
'''), sub(P + 'sgp4.rs', 'ktr <= 10', 'ktr < 10'))
add('sgp4-fail', sub(P + 'sgp4.rs', 'pub fn sgp4(', '''fn fail<T>(satrec: &mut Satrec, error: SGP4Error) -> Result<T, SGP4Error> {
    satrec.error = u32::from(error.code());
    Err(error)
}

pub fn sgp4('''), rx(P + 'sgp4.rs', r'(?s)        satrec\.error = [1-6];\n((?:\s*//[^\n]*\n|\s*\n)*)\s*return Err\((SGP4Error::\w+)\);', r'\1        return fail(satrec, \2);', 5))
add('sgp4-order', rx(P + 'sgp4.rs', r'(?s)\n    // sgp4fix for decaying satellites\n    if mrt < 1\.0 \{.*?\n    \}\n', '\n', 1),
    sub(P + 'sgp4.rs', '    // --------------------- orientation vectors -------------------\n', '''    if mrt < 1.0 {
        satrec.error = 6;
        return Err(SGP4Error::DecayCondition);
    }

    // --------------------- orientation vectors -------------------
'''), sub(P + 'sgp4.rs', '''    let r = Eci {
        x: (mrt * ux) * EARTH_RADIUS,
        y: (mrt * uy) * EARTH_RADIUS,
        z: (mrt * uz) * EARTH_RADIUS,
    };
''', '''    let rk = mrt * EARTH_RADIUS;
    let r = Eci { x: ux * rk, y: uy * rk, z: uz * rk };
'''))
add('sgp4-drag', rx(P + 'sgp4.rs', r'(?s)    tempa = 1\.0 - \(satrec\.cc1 \* satrec\.t\);\n.*?    nm = satrec\.no;\n', '''    let Drag { a, e, l, shift } = drag(satrec, xmdf, tsince);
    tempa = a;
    tempe = e;
    templ = l;
    mm = xmdf + shift;
    argpm = argpdf - shift;
    nm = satrec.no;
''', 1), sub(P + 'sgp4.rs', '    argpm = argpdf;\n    mm = xmdf;\n', ''), sub(P + 'sgp4.rs', 'pub fn sgp4(', '''struct Drag { a: f64, e: f64, l: f64, shift: f64 }

/// Atmospheric drag: factors of the semi-major axis, the eccentricity and the mean longitude, and the shift of perigee.
fn drag(s: &Satrec, xmdf: f64, t: f64) -> Drag {
    let mut d = Drag { a: 1.0 - s.cc1 * t, e: s.bstar * s.cc4 * t, l: s.t2cof * t * t, shift: 0.0 };
    if s.isimp == 1 {
        return d;
    }
    d.shift = s.omgcof * t + s.xmcof * ((1.0 + s.eta * xmdf.cos()).powi(3) - s.delmo);
    d.a -= t * t * (s.d2 + t * (s.d3 + t * s.d4));
    d.e += s.bstar * s.cc5 * ((xmdf + d.shift).sin() - s.sinmao);
    d.l += t.powi(3) * (s.t3cof + t * (s.t4cof + t * s.t5cof));
    d
}

pub fn sgp4('''), sub(P + 'sgp4.rs', '    let mut tempa;\n    let mut tempe;\n    let mut templ;\n', '    let tempa: f64;\n    let tempe: f64;\n    let templ: f64;\n'), sub(P + 'sgp4.rs', '    let delm;\n    let delomg;\n', ''), sub(P + 'sgp4.rs', '    let t3;\n    let t4;\n', ''))
add('sgp4-matchmethod', sub(P + 'sgp4.rs', '    if satrec.method == InitlMethod::D {', '    if deep {', 4), sub(P + 'sgp4.rs', '''    satrec.t = tsince;
''', '''    let deep = matches!(satrec.method, InitlMethod::D);
    satrec.t = tsince;
'''), sub(P + 'sgp4.rs', 'let am = ((XKE / nm).powf(X2O3)) * tempa * tempa;', 'let am = (XKE / nm).powf(X2O3) * tempa.powi(2);'),
    sub(P + 'sgp4.rs', 'nm = XKE / (am.powf(1.5));', 'nm = XKE / (am * am.sqrt());'))
add('sgp4-code', sub(P + 'sgp4.rs', '''        match self {
            SGP4Error::Eccentricty => 1,
            SGP4Error::Nm => 2,
            SGP4Error::Ep => 3,
            SGP4Error::Pl => 4,
            SGP4Error::DecayCondition => 6
        }
''', '''        if *self == SGP4Error::DecayCondition { return 6; }
        let order = [SGP4Error::Eccentricty, SGP4Error::Nm, SGP4Error::Ep, SGP4Error::Pl];
        order.iter().position(|e| e == self).map(|i| i as u8 + 1).unwrap_or(6)
'''))

# ------------------------------------------------------------------ dpper, dscom, dsinit, dspace
add('dpper-fn', rx(P + 'dpper.rs', r'(?s)    zf = zm \+ \(2\.0 \* ZES \* zm\.sin\(\)\);\n    sinzf = zf\.sin\(\);\n.*?f3 = [^\n]*\n', '''    let (a, b, c) = periodic(zm, ZES);
    sinzf = a; f2 = b; f3 = c;
''', 1), rx(P + 'dpper.rs', r'(?s)    zf = zm \+ \(2\.0 \* ZEL \* zm\.sin\(\)\);\n    sinzf = zf\.sin\(\);\n.*?f3 = [^\n]*\n', '''    let (a, b, c) = periodic(zm, ZEL);
    sinzf = a; f2 = b; f3 = c;
''', 1), sub(P + 'dpper.rs', '    let mut zf;\n', ''), sub(P + 'dpper.rs', 'pub fn dpper(', '''fn periodic(zm: f64, e: f64) -> (f64, f64, f64) {
    let zf = zm + 2.0 * e * zm.sin();
    let (s, c) = zf.sin_cos();
    (s, 0.5 * s * s - 0.25, -0.5 * s * c)
}

pub fn dpper('''))
add('dpper-init', sub(P + 'dpper.rs', '''    zm = zmos + (ZNS * t);

    // be sure that the initial call has time set to zero
    if init == DpperInit::Y {
        zm = zmos;
    }
''', '''    let t = match init { DpperInit::Y => 0.0, DpperInit::N => t };
    zm = zmos + (ZNS * t);
'''), sub(P + 'dpper.rs', '''    if init == DpperInit::Y {
        zm = zmol;
    }
''', ''), sub(P + 'dpper.rs', '''        pe -= peo;
        pinc -= pinco;
        pl -= plo;
        pgh -= pgho;
        ph -= pho;
        inclp += pinc;
        ep += pe;
''', '''        pe = pe - peo;
        ep = ep + pe;
        pinc = pinc - pinco;
        inclp = inclp + pinc;
        pl = pl - plo;
        pgh = pgh - pgho;
        ph = ph - pho;
'''))
add('dpper-return', sub(P + 'dpper.rs', '    if init == DpperInit::N {\n', '''    if init == DpperInit::Y {
        return DpperResult { ep, inclp, nodep, argpp, mp };
    }
    {
'''))
add('dpper-lyddane', rx(P + 'dpper.rs', r'(?s)            alfdp = sinip \* sinop;.*?betdp \+= dbet;\n', '''            let alfdp = sinip * sinop + ph * cosop + pinc * cosip * sinop;
            let betdp = sinip * cosop - ph * sinop + pinc * cosip * cosop;
''', 1), rx(P + 'dpper.rs', r'(?s)            if \(xnoh - nodep\)\.abs\(\) > std::f64::consts::PI \{.*?                \}\n            \}\n', '''            if xnoh - nodep > std::f64::consts::PI {
                nodep += TWO_PI;
            } else if nodep - xnoh > std::f64::consts::PI {
                nodep -= TWO_PI;
            }
''', 1), rx(P + 'dpper.rs', r'    let mut alfdp;\n    let mut betdp;\n', '', 1), rx(P + 'dpper.rs', r'    let dalf;\n    let dbet;\n', '', 1))
add('dscom-for', sub(P + 'dscom.rs', '''    let mut lsflg = 0;
    while lsflg < 2 {
        lsflg += 1;
''', '''    for lsflg in 1..=2 {
'''), sub(P + 'dscom.rs', 'let emsq = em.powi(2);', 'let emsq = em * em;'))
add('dscom-loop', sub(P + 'dscom.rs', '    while lsflg < 2 {\n        lsflg += 1;\n', '    loop {\n        lsflg += 1;\n'),
    sub(P + 'dscom.rs', '            cc = C1L;\n        }\n', '            cc = C1L;\n        } else {\n            break;\n        }\n'),
    sub(P + 'dscom.rs', 'z1 = z1 + z1 + (betasq * z31);', 'z1 = 2.0 * z1 + betasq * z31;'))
add('dsinit-poly', sub(P + 'dsinit.rs', 'pub fn dsinit(', '''fn poly(e: f64, c: [f64; 4]) -> f64 {
    c[0] + e * (c[1] + e * (c[2] + e * c[3]))
}

pub fn dsinit('''), sub(P + 'dsinit.rs', 'g533 = ((-919.22770 + (4988.6100 * em)) - (9064.7700 * emsq)) + (5542.21 * eoc);', 'g533 = poly(em, [-919.22770, 4988.6100, -9064.7700, 5542.21]);'))
add('dsinit-match', sub(P + 'dsinit.rs', '''    irez = 0.0;
    if (nm < 0.0052359877) && (nm > 0.0034906585) {
        irez = 1.0;
    }
    if (nm >= 8.26e-3) && (nm <= 9.24e-3) && (em >= 0.5) {
        irez = 2.0;
    }
''', '''    irez = if nm > 0.0034906585 && nm < 0.0052359877 {
        1.0
    } else if (8.26e-3..=9.24e-3).contains(&nm) && em >= 0.5 {
        2.0
    } else {
        0.0
    };
'''), sub(P + 'dsinit.rs', '''    if inclm < 5.2359877e-2 || inclm > PI - 5.2359877e-2 {
        shs = 0.0;
    }
    if sinim != 0.0 {
        shs /= sinim;
    }
''', '''    let equatorial = inclm < 5.2359877e-2 || inclm > PI - 5.2359877e-2;
    if equatorial {
        shs = 0.0;
    } else if sinim != 0.0 {
        shs /= sinim;
    }
'''), sub(P + 'dsinit.rs', '''    if (inclm < 5.2359877e-2) || (inclm > (PI - 5.2359877e-2)) {''', '''    if equatorial {'''))
add('dspace-while', rx(P + 'dspace.rs', r'(?s)        let mut iretn = 381; // added for do loop\n        while iretn == 381 \{\n', '        loop {\n', 1),
    rx(P + 'dspace.rs', r'(?s)            if \(t - atime\)\.abs\(\) >= STEPP \{\n                iretn = 381;.*?                atime \+= delt;\n            \}\n', '''            if (t - atime).abs() < STEPP {
                ft = t - atime;
                break;
            }
            xli += (xldot * delt) + (xndt * STEP2);
            xni += (xndt * delt) + (xnddt * STEP2);
            atime += delt;
''', 1))
add('dspace-fn', rx(P + 'dspace.rs', r'(?s)            if irez != 2\.0 \{\n                xndt = .*?                xnddt \*= xldot;\n            \}\n', '''            let f = forces(&o, xli, xni, atime);
            xndt = f.0;
            xldot = f.1;
            xnddt = f.2;
''', 1), sub(P + 'dspace.rs', 'pub fn dspace(options: DspaceOptions) -> DspaceResult {\n', '''struct Forces { irez: f64, sync: [f64; 3], half: [f64; 10], argpo: f64, argpdot: f64, xfact: f64 }

fn forces(o: &Forces, xli: f64, xni: f64, atime: f64) -> (f64, f64, f64) {
    const FASX: [f64; 3] = [0.13130908, 2.8843198, 0.37448087];
    const G22: f64 = 5.7686396;
    const G32: f64 = 0.95240898;
    const G44: f64 = 1.8014998;
    const G52: f64 = 1.0508330;
    const G54: f64 = 4.4108898;
    let xldot = xni + o.xfact;
    let mut a = 0.0;
    let mut b = 0.0;
    if o.irez == 2.0 {
        let w = o.argpo + o.argpdot * atime;
        let terms = [(2.0, 1.0, G22), (0.0, 1.0, G22), (1.0, 1.0, G32), (-1.0, 1.0, G32), (2.0, 2.0, G44), (0.0, 2.0, G44),
            (1.0, 1.0, G52), (-1.0, 1.0, G52), (1.0, 2.0, G54), (-1.0, 2.0, G54)];
        for (k, (p, q, g)) in terms.iter().enumerate() {
            let angle = p * w + q * xli - g;
            a += o.half[k] * angle.sin();
            b += q * o.half[k] * angle.cos();
        }
    } else {
        for k in 0..3 {
            let n = (k + 1) as f64;
            let angle = n * (xli - FASX[k]);
            a += o.sync[k] * angle.sin();
            b += n * o.sync[k] * angle.cos();
        }
    }
    (a, xldot, b * xldot)
}

pub fn dspace(options: DspaceOptions) -> DspaceResult {
'''), sub(P + 'dspace.rs', '    let delt;\n', '''    let o = Forces { irez, sync: [del1, del2, del3], half: [d2201, d2211, d3210, d3222, d4410, d4422, d5220, d5232, d5421, d5433],
        argpo, argpdot, xfact };
    let delt;
'''), rx(P + 'dspace.rs', r'    let mut x2li;\n    let mut x2omi;\n', '', 1), rx(P + 'dspace.rs', r'    let mut xomi;\n', '', 1))
add('dspace-early', sub(P + 'dspace.rs', '''        if t > 0.0 {
            delt = STEPP;
        } else {
            delt = STEPN;
        }
''', '''        delt = if t > 0.0 { STEPP } else { -STEPP };
'''), sub(P + 'dspace.rs', '''        if irez != 1.0 {
            mm = (xl - (2.0 * nodem)) + (2.0 * theta);
            dndt = nm - no;
        } else {
            mm = (xl - nodem - argpm) + theta;
            dndt = nm - no;
        }
''', '''        mm = if irez == 1.0 { xl + theta - nodem - argpm } else { xl + 2.0 * (theta - nodem) };
        dndt = nm - no;
'''), sub(P + 'dspace.rs', '''        nm = xni + (xndt * ft) + (xnddt * ft * ft * 0.5);
        xl = xli + (xldot * ft) + (xndt * ft * ft * 0.5);
''', '''        let half = 0.5 * ft * ft;
        nm = xni + xndt * ft + xnddt * half;
        xl = xli + xldot * ft + xndt * half;
'''))

# ------------------------------------------------------------------ io
add('io-helpers', fn('io.rs', 'parse', r'''
fn set_name(line: &str) -> String {
    match line.as_bytes()[0] {
        b'0' => line.get(2..).unwrap_or("").trim().to_string(),
        _ => line.trim().to_string(),
    }
}

fn content_lines(text: &str) -> Vec<&str> {
    text.split('\n').filter(|l| !l.trim().is_empty()).collect()
}

fn numbered(a: &str, b: &str) -> bool {
    a.starts_with('1') && b.starts_with('2')
}

pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
    let lines = content_lines(string);
    match lines.as_slice() {
        [a, b] if numbered(a, b) => twoline2satrec(a, b),
        [name, a, b] if numbered(a, b) => {
            let mut rec = twoline2satrec(a, b)?;
            rec.name = Some(set_name(name));
            Ok(rec)
        }
        [_, _] | [_, _, _] => Err(SatrecParseError::InvalidTLELineCheckFailed),
        _ => Err(SatrecParseError::InvalidTLEBadLineCount),
    }
}
'''))
add('io-multi', fn('io.rs', 'parse_multiple', r'''
pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
    let lines: Vec<&str> = string.split('\n').filter(|l| !l.trim().is_empty()).collect();
    let mut recs = Vec::new();
    let mut errors = Vec::new();
    let mut rest = &lines[..];
    while !rest.is_empty() {
        let at = lines.len() - rest.len();
        let (name, pair) = match rest {
            [_] => {
                errors.push(SatrecParseError::SatrecMultiError(at, Box::new(SatrecParseError::InvalidTLEBadLineCount)));
                break;
            }
            [a, b, ..] if rest.len() == 2 || a.starts_with('1') && b.starts_with('2') => (None, (*a, *b)),
            [n, a, b, ..] => (Some(*n), (*a, *b)),
            [] | [_, _] => unreachable!(),
        };
        match twoline2satrec(pair.0, pair.1) {
            Ok(mut rec) => {
                if let Some(n) = name {
                    let text = if n.starts_with('0') { n.get(2..).unwrap_or("") } else { n };
                    rec.name = Some(text.trim().to_owned());
                }
                recs.push(rec);
            }
            Err(e) => errors.push(SatrecParseError::SatrecMultiError(at, Box::new(e))),
        }
        rest = &rest[if name.is_some() { 3 } else { 2 }..];
    }
    (recs, errors)
}
'''))
add('io-multi2', fn('io.rs', 'parse_multiple', r'''
fn named(line: &str, mut rec: Satrec) -> Satrec {
    let text = match line.bytes().next() {
        Some(b'0') => line.get(2..).unwrap_or_default(),
        _ => line,
    };
    rec.name = Some(text.trim().into());
    rec
}

pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
    let lines = string.split("\n").filter(|el| el.trim() != "").collect::<Vec<_>>();
    let (mut recs, mut errors) = (vec![], vec![]);
    let mut i = 0;
    while let Some(first) = lines.get(i) {
        let left = lines.len() - i;
        let has_name = left > 2 && !(first.starts_with("1") && lines[i + 1].starts_with("2"));
        let k = if has_name { i + 1 } else { i };
        let size = if has_name { 3 } else { std::cmp::min(left, 2) };
        let loaded = if size == 1 {
            Err(SatrecParseError::InvalidTLEBadLineCount)
        } else {
            twoline2satrec(lines[k], lines[k + 1])
        };
        match loaded {
            Ok(rec) if has_name => recs.push(named(first, rec)),
            Ok(rec) => recs.push(rec),
            Err(err) => errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err))),
        }
        i += size;
    }
    (recs, errors)
}
'''))
add('io-two', fn('io.rs', 'twoline2satrec', r'''
pub fn twoline2satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
    let mut satrec = parse_satrec(str1, str2)?;
    let options = init_options(&satrec);
    sgp4init::sgp4init(&mut satrec, options).map_err(SatrecParseError::Sgp4InitError)?;
    Ok(satrec)
}

fn init_options(satrec: &Satrec) -> sgp4init::SGP4InitOptions {
    sgp4init::SGP4InitOptions {
        opsmode: DpperOpsMode::I,
        satn: satrec.satnum.to_owned(),
        epoch: satrec.jdsatepoch - 2433281.5,
        xbstar: satrec.bstar,
        xecco: satrec.ecco,
        xargpo: satrec.argpo,
        xinclo: satrec.inclo,
        xmo: satrec.mo,
        xno: satrec.no,
        xnodeo: satrec.nodeo,
    }
}
'''))
add('io-fields', sub('io.rs', '''    let nddot = match nndot_str.parse::<f64>() {
            Ok(res) => res / (XPDOTP * 1440.0 * 1440.0),
            Err(_) => return Err(SatrecParseError::CompoundError("nndot", nndot_str))
    };
''', '''    let nddot = nndot_str
        .parse::<f64>()
        .map(|res| res / (XPDOTP * 1440.0 * 1440.0))
        .map_err(|_| SatrecParseError::CompoundError("nndot", nndot_str))?;
'''), sub('io.rs', '''    let bstar = match bstar_str.trim().parse::<f64>() {
        Ok(res) => res,
        Err(_) => return Err(SatrecParseError::CompoundError("bstr", bstar_str))
    };
''', '''    let bstar: f64 = if let Ok(res) = bstar_str.trim().parse() {
        res
    } else {
        return Err(SatrecParseError::CompoundError("bstr", bstar_str));
    };
'''), sub('io.rs', '''    let year;
    if epochyr < 57 {
        year = epochyr + 2000;
    } else {
        year = epochyr + 1900;
    }
''', '''    let year = epochyr + match epochyr {
        y if y < 57 => 2000,
        _ => 1900,
    };
'''), sub('io.rs', '    match text.trim().parse::<i64>() {\n        Ok(res) => Ok(res),\n        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, text.to_string()))\n    }',
 '    text.trim().parse().map_err(|_| SatrecParseError::IntParseError(name, low, high, text.to_owned()))'))
add('io-degrees', sub('io.rs', '''fn parse_int(''', '''fn parse_degrees(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
    Ok(parse_float(line, name, low, high)?.to_radians())
}

fn parse_int('''), rx('io.rs', r'parse_float\((str2, "\w+", \d+, \d+)\)\? \* DEG_2_RAD', r'parse_degrees(\1)?', 4),
    sub('io.rs', 'let a = (no * TUMIN).powf(-2.0 / 3.0);', 'let a = 1.0 / (no * TUMIN).powf(X2O3);'))
add('io-concat', sub('io.rs', '    let bstar_str = format!("{}.{:05}E{}", bstar_0, bstar_1, bstar_2);\n', '''    let mut bstar_str = bstar_0;
    bstar_str.push('.');
    bstar_str += &format!("{:05}", bstar_1);
    bstar_str.push_str("E");
    bstar_str.push_str(&bstar_2);
'''), sub('io.rs', '''    let mut satrec = Satrec::zero();

    satrec.operationmode = DpperOpsMode::I;
    satrec.satnum = satnum.to_string();
    satrec.epochyr = epochyr;
    satrec.epochdays = epochdays;
    satrec.ndot = ndot;
    satrec.nddot = nddot;
    satrec.bstar = bstar;
    satrec.inclo = inclo;
    satrec.nodeo = nodeo;
    satrec.ecco = ecco;
    satrec.argpo = argpo;
    satrec.mo = mo;
    satrec.no = no;
    satrec.a = a;
    satrec.alta = alta;
    satrec.altp = altp;
    satrec.jdsatepoch = jdsatepoch;

    return Ok(satrec);
''', '''    Ok(Satrec {
        operationmode: DpperOpsMode::I,
        satnum: String::from(satnum),
        epochyr, epochdays, ndot, nddot, bstar, inclo, nodeo, ecco, argpo, mo, no, a, alta, altp, jdsatepoch,
        ..Satrec::zero()
    })
'''))
add('io-columns', fn('io.rs', 'columns', r'''
fn columns<'a>(line: &'a str, name: &'static str, low: usize, high: usize) -> Result<&'a str, SatrecParseError> {
    if line.len() < high || !line.is_char_boundary(low) || !line.is_char_boundary(high) {
        return Err(SatrecParseError::CompoundError(name, line.to_string()));
    }
    Ok(&line[low..high])
}
'''))
add('io-lines', sub('io.rs', 'string.split("\\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();', 'string.lines().filter(|el| el.trim().len() > 0).collect::<Vec<&str>>();', 2))
add('io-forloop', sub('io.rs', '    let lines = string.split("\\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();\n', '''    let mut lines: Vec<&str> = Vec::new();
    for line in string.split('\\n') {
        if line.trim().is_empty() {
            continue;
        }
        lines.push(line);
    }
''', 2))
add('io-retain', sub('io.rs', '    let lines = string.split("\\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();\n', '''    let mut lines: Vec<&str> = string.split('\\n').collect();
    lines.retain(|l| l.trim_start() != "");
''', 2))
add('io-datetime', fn(P + 'mod.rs', 'propogate_datetime', r'''
pub fn propogate_datetime(satrec: &Satrec, time: DateTime<Utc>) -> Result<SGP4Result, SGP4Error> {
  sgp4(&mut satrec.clone(), minutes_since_epoch(satrec, time))
}

fn minutes_since_epoch(satrec: &Satrec, time: DateTime<Utc>) -> f64 {
  let days = jday_datetime(time) - satrec.jdsatepoch;
  days * MINUTES_PER_DAY
}
'''))
add('consts', sub('constants.rs', 'pub static XPDOTP: f64 = 1440.0 / (2.0 * std::f64::consts::PI);', 'pub static XPDOTP: f64 = MINUTES_PER_DAY / TWO_PI;'),
    sub('constants.rs', 'pub static TWO_PI: f64 = PI * 2.0;', 'pub static TWO_PI: f64 = std::f64::consts::TAU;'),
    sub('constants.rs', 'pub static MI_TO_KM: f64 = 1.0 / 0.62137;', 'pub static MI_TO_KM: f64 = 1.0 / KM_TO_MI;'))
add('consts-const', rx('constants.rs', r'pub static ', 'pub const '))
