"""A fourth collection of behaviour-preserving edits: less usual parts of the standard library, slices, closures, folds."""
from refactors import R, sub, fn, rx, apply, fnspan
P = 'propogation/'
L = []
def add(*a): L.append(R(*a))

# ------------------------------------------------------------------ io
add('io-tail-pattern', fn('io.rs', 'parse_multiple', '''
pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
    let lines: Vec<&str> = string.split('\\n').filter(|el| !el.trim().is_empty()).collect();
    let (mut recs, mut errors) = (Vec::new(), Vec::new());
    let mut rest = lines.as_slice();
    while !rest.is_empty() {
        let at = lines.len() - rest.len();
        let (outcome, tail) = match rest {
            [title, one, two, tail @ ..] if !(title.starts_with('1') && one.starts_with('2')) => {
                let set = twoline2satrec(one, two).map(|mut rec| {
                    let name = if title.starts_with('0') { title.get(2..).unwrap_or("") } else { title };
                    rec.name = Some(name.trim().to_string());
                    rec
                });
                (set, tail)
            }
            [one, two, tail @ ..] => (twoline2satrec(one, two), tail),
            [_, tail @ ..] => (Err(SatrecParseError::InvalidTLEBadLineCount), tail),
            [] => break,
        };
        match outcome {
            Ok(rec) => recs.push(rec),
            Err(e) => errors.push(SatrecParseError::SatrecMultiError(at, Box::new(e))),
        }
        rest = tail;
    }
    (recs, errors)
}
'''))
add('io-split-at', fn('io.rs', 'parse_multiple', '''
pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
    let lines: Vec<&str> = string.split('\\n').filter(|el| el.trim().len() != 0).collect();
    let mut recs: Vec<Satrec> = Vec::new();
    let mut errors: Vec<SatrecParseError> = Vec::new();
    let mut done = 0usize;
    while let Some(left) = lines.len().checked_sub(done).filter(|n| *n > 0) {
        let named = left > 2 && !(lines[done].starts_with('1') && lines[done + 1].starts_with('2'));
        let take = if named { 3 } else { left.min(2) };
        let (_, after) = lines.split_at(done);
        let (set, _) = after.split_at(take);
        let made = match take {
            3 => named_set(set[0], set[1], set[2]),
            2 => twoline2satrec(set[0], set[1]),
            _ => Err(SatrecParseError::InvalidTLEBadLineCount),
        };
        if let Err(e) = made.map(|r| recs.push(r)) {
            errors.push(SatrecParseError::SatrecMultiError(done, Box::new(e)));
        }
        done += take;
    }
    (recs, errors)
}

fn named_set(title: &str, one: &str, two: &str) -> Result<Satrec, SatrecParseError> {
    let mut rec = twoline2satrec(one, two)?;
    let mut name = title;
    if title.as_bytes().first() == Some(&b'0') {
        name = title.get(2..).unwrap_or_default();
    }
    rec.name.replace(name.trim().to_owned());
    Ok(rec)
}
'''))
add('io-parse-array', fn('io.rs', 'parse', '''
pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
    let mut lines: Vec<&str> = string.split('\\n').filter(|el| !el.trim().is_empty()).collect();
    let title = (lines.len() == 3).then(|| lines.remove(0));
    use std::convert::TryInto;
    let pair: Result<[&str; 2], _> = lines.try_into();
    let [one, two] = match pair {
        Ok(p) => p,
        Err(_) => return Err(SatrecParseError::InvalidTLEBadLineCount),
    };
    let digits = (one.as_bytes()[0], two.as_bytes()[0]);
    if digits != (b'1', b'2') {
        return Err(SatrecParseError::InvalidTLELineCheckFailed);
    }
    let mut rec = twoline2satrec(one, two)?;
    if let Some(t) = title {
        let skip = if t.as_bytes()[0] == b'0' { 2 } else { 0 };
        rec.name = Some(t.get(skip..).unwrap_or("").trim().into());
    }
    Ok(rec)
}
'''))
add('io-strip-title', rx('io.rs', r'(?s)                if \(lines\[0\]\.bytes\(\).*?\n                \}\n', '''                satrec.name = match lines[0].chars().next() {
                    Some('0') => lines[0].get(2..).map(str::trim).map(String::from).or_else(|| Some(String::new())),
                    _ => Some(lines[0].trim().chars().collect()),
                };
''', 1))
add('io-number-filter', fn('io.rs', 'parse_float', '''
fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
    let text = columns(line, name, low, high)?;
    text.trim()
        .parse()
        .ok()
        .filter(|x: &f64| !x.is_nan() && !x.is_infinite())
        .ok_or_else(|| SatrecParseError::FloatParseError(name, low, high, text.to_owned()))
}
'''), fn('io.rs', 'parse_int', '''
fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<i64, SatrecParseError> {
    columns(line, name, low, high).and_then(|text| {
        i64::from_str_radix(text.trim(), 10).map_err(|_| SatrecParseError::IntParseError(name, low, high, String::from(text)))
    })
}
'''))
add('io-century-index', rx('io.rs', r'(?s)    let year;\n    if epochyr.*?\n    \}\n', '''    let year = [1900, 2000][usize::from(epochyr < 57)] + epochyr;
''', 1))
add('io-century-bool', rx('io.rs', r'(?s)    let year;\n    if epochyr.*?\n    \}\n', '''    let year = epochyr + 1900 + 100 * i64::from(epochyr < 57);
''', 1))
add('io-exponent-concat', rx('io.rs', r'(?s)    let bstar_str = format!\(.*?\n', '''    let bstar_str = [bstar_0.as_str(), ".", &format!("{:05}", bstar_1), "E", &bstar_2].concat();
''', 1))
add('io-ecco-scaled-string', rx('io.rs', r'(?s)    let ecco_str = format!\(.*?\n', '''    let mut ecco_str = String::with_capacity(8);
    ecco_str.push('.');
    ecco_str.push_str(columns(str2, "ecco", 26, 33)?.trim());
''', 1))

# ------------------------------------------------------------------ ext
add('ext-months-position', fn('ext.rs', 'days2mdhms', '''
pub fn days2mdhms(year: u64, days: f64) -> MDHMS {
    let feb = 28 + u64::from(year % 4 == 0);
    let ends = [31, feb, 31, 30, 31, 30, 31, 31, 30, 31, 30]
        .iter()
        .scan(0u64, |sum, m| {
            *sum += m;
            Some(*sum)
        })
        .collect::<Vec<u64>>();
    let dayofyr = days.floor() as u64;
    let n = ends.iter().position(|&e| dayofyr <= e).unwrap_or(11);
    let before = if n == 0 { 0 } else { ends[n - 1] };
    let parts = |x: f64| (x.floor(), (x - x.floor()) * 60.0);
    let (hour, rest) = parts((days - dayofyr as f64) * 24.0);
    let (minute, second) = parts(rest);
    MDHMS { month: (n + 1) as f64, day: (dayofyr - before) as f64, hour, minute, second }
}
'''))
add('ext-months-tryfold', fn('ext.rs', 'days2mdhms', '''
pub fn days2mdhms(year: u64, days: f64) -> MDHMS {
    let dayofyr = days.floor() as u64;
    let length = |m: u64| match m {
        2 if year % 4 == 0 => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    let found = (1..12u64).try_fold(0u64, |before, m| {
        let after = before + length(m);
        if dayofyr > after { Ok(after) } else { Err((m, before)) }
    });
    let (month, before) = match found {
        Ok(total) => (12, total),
        Err(hit) => hit,
    };
    let hours = (days - dayofyr as f64) * 24.0;
    let minutes = (hours - hours.floor()) * 60.0;
    MDHMS {
        month: month as f64,
        day: (dayofyr - before) as f64,
        hour: hours.floor(),
        minute: minutes.floor(),
        second: (minutes - minutes.floor()) * 60.0,
    }
}
'''))
add('ext-months-countdown', fn('ext.rs', 'days2mdhms', '''
pub fn days2mdhms(year: u64, days: f64) -> MDHMS {
    let mut lmonth: [u64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    lmonth[1] += (year & 3 == 0) as u64;
    let whole = days.floor() as u64;
    let mut day = whole;
    let mut month = 1;
    for &len in lmonth.iter().take(11) {
        if day <= len {
            break;
        }
        day -= len;
        month += 1;
    }
    let h = (days - whole as f64) * 24.0;
    let m = (h - h.floor()) * 60.0;
    MDHMS { month: month as f64, hour: h.floor(), day: day as f64, minute: m.floor(), second: (m - m.floor()) * 60.0 }
}
'''))
add('ext-jday-fraction', fn('ext.rs', 'jday', '''
pub fn jday(year: f64, mon: f64, day: f64, hr: f64, minute: f64, sec: f64, msec: f64) -> f64 {
    let seconds = sec + msec / 1000.0;
    let fraction = [(hr, 24.0), (minute, 1440.0), (seconds, 86400.0)].iter().map(|(x, n)| x / n).sum::<f64>();
    let years = 367.0 * year - (1.75 * (year + ((mon + 9.0) / 12.0).floor())).floor();
    years + (275.0 * mon / 9.0).floor() + day + 1_721_013.5 + fraction
}
'''))
add('ext-chrono-split', fn('ext.rs', 'jday_datetime', '''
pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
    let (date, clock) = (time.date_naive(), time.time());
    let [hr, minute, sec] = [clock.hour(), clock.minute(), clock.second()].map(f64::from);
    jday(date.year() as f64, f64::from(date.month()), f64::from(date.day()), hr, minute, sec, clock.nanosecond() as f64 / 1.0e6)
}
'''))

# ------------------------------------------------------------------ gstime
add('gst-fold', fn(P + 'gstime.rs', 'gstime', '''
pub fn gstime(jdut1: f64) -> f64 {
    let t = (jdut1 - 2451545.0) / 36525.0;
    let seconds = [-6.2e-6, 0.093104, 876600.0 * 3600.0 + 8640184.812866, 67310.54841]
        .into_iter()
        .reduce(|sum, c| sum * t + c)
        .unwrap_or(0.0);
    let angle = (seconds / 240.0).to_radians() % TWO_PI;
    angle + if angle < 0.0 { TWO_PI } else { 0.0 }
}
'''))
add('gst-turns', fn(P + 'gstime.rs', 'gstime', '''
pub fn gstime(jdut1: f64) -> f64 {
    let t = (jdut1 - 2451545.0) / 36525.0;
    let seconds = 67310.54841 + t * (3164400184.812866 + t * (0.093104 - t * 6.2e-6));
    let angle = (seconds * DEG_2_RAD) / 240.0;
    angle.rem_euclid(TWO_PI)
}
'''))

# ------------------------------------------------------------------ transforms
add('tr-from-fn', fn('transforms.rs', 'ecf_to_eci', '''
pub fn ecf_to_eci(ecf: &Ecf, gmst: f64) -> Eci {
    let v = [ecf.x, ecf.y, ecf.z];
    let m = turn(gmst);
    let [x, y, z] = std::array::from_fn(|i| m[i].iter().zip(v).map(|(a, b)| a * b).sum());
    Vec3 { x, y, z }
}

/// Matrix of the turn about the polar axis.
fn turn(angle: f64) -> [[f64; 3]; 3] {
    let (s, c) = angle.sin_cos();
    [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]
}
'''), fn('transforms.rs', 'eci_to_ecf', '''
pub fn eci_to_ecf(eci: &Eci, gmst: f64) -> Ecf {
    let v = [eci.x, eci.y, eci.z];
    let m = turn(gmst);
    let row = |j: usize| (0..3).map(|i| m[i][j] * v[i]).sum::<f64>();
    Vec3 { x: row(0), y: row(1), z: row(2) }
}
'''))
add('tr-iterate-fold', rx('transforms.rs', r'(?s)    const KMAX: i32 = 20;.*?    let height =', '''    let curvature = |latitude: f64| 1.0 / (1.0 - E2 * latitude.sin().powi(2)).sqrt();
    let (latitude, c) = (0..20).fold((eci.z.atan2(r), 0.0), |(latitude, _), _| {
        let c = curvature(latitude);
        ((eci.z + A * c * E2 * latitude.sin()).atan2(r), c)
    });

    let height =''', 1))
add('tr-iterate-successors', rx('transforms.rs', r'(?s)    const KMAX: i32 = 20;.*?    let height =', '''    let round = |&(latitude, _): &(f64, f64)| {
        let s = f64::sin(latitude);
        let c = (1.0 - E2 * s * s).sqrt().recip();
        Some(((eci.z + A * c * E2 * s).atan2(r), c))
    };
    let (latitude, c) = std::iter::successors(Some((eci.z.atan2(r), 0.0)), round).nth(20).unwrap();

    let height =''', 1))
add('tr-longitude-remainder', rx('transforms.rs', r'(?s)    while longitude < -PI \{.*?    const KMAX', '''    if longitude.abs() > PI {
        longitude -= TWO_PI.copysign(longitude);
    }

    const KMAX''', 1))
add('tr-dot-rows', fn('transforms.rs', 'topocentric', '''
pub fn topocentric(observer: &Geodedic, satellite: &Ecf) -> TopoCentric {
    let d = satellite.subtract(&geodedic_to_ecf(observer));
    let ((sb, cb), (sl, cl)) = (observer.latitude.sin_cos(), observer.longitude.sin_cos());
    let rows = [[sb * cl, sb * sl, -cb], [-sl, cl, 0.0], [cb * cl, cb * sl, sb]];
    let mut out = [0.0; 3];
    for (o, row) in out.iter_mut().zip(&rows) {
        *o = row[0] * d.x + row[1] * d.y + row[2] * d.z;
    }
    let [top_s, top_e, top_z] = out;
    TopoCentric { top_s, top_e, top_z }
}
'''))
add('tr-hypot', fn('transforms.rs', 'topocentric_to_look_angles', '''
pub fn topocentric_to_look_angles(tc: &TopoCentric) -> Bearing {
    let &TopoCentric { top_s, top_e, top_z } = tc;
    let range = top_s.hypot(top_e).hypot(top_z);
    Bearing { azimuth: PI - f64::atan2(top_e, top_s), elevation: f64::asin(top_z / range), range }
}
'''))
add('tr-checked-range', sub('transforms.rs', '''    if radians < -std::f64::consts::FRAC_PI_2 || radians > std::f64::consts::FRAC_PI_2 {
        panic!("Range error: Latitude radians''', '''    let limit = std::f64::consts::FRAC_PI_2;
    if [radians, -radians].iter().any(|x| *x > limit) {
        panic!("Range error: Latitude radians'''))

# ------------------------------------------------------------------ stages
add('dpper-fold', rx(P + 'dpper.rs', r'(?s)    let ses = \(se2.*?    zm = zmol \+ \(ZNL', '''    let short = [f2, f3, sinzf];
    let weigh = |k: &[f64]| k.iter().zip(short.iter()).map(|(a, b)| a * b).sum::<f64>();
    let [ses, sis, sls, sghs, shs] = [&[se2, se3][..], &[si2, si3], &[sl2, sl3, sl4], &[sgh2, sgh3, sgh4], &[sh2, sh3]].map(weigh);

    zm = zmol + (ZNL''', 1))
add('dpper-apply', sub(P + 'dpper.rs', '''        pe -= peo;
        pinc -= pinco;
        pl -= plo;
        pgh -= pgho;
        ph -= pho;
''', '''        for (p, o) in [&mut pe, &mut pinc, &mut pl, &mut pgh, &mut ph].into_iter().zip([peo, pinco, plo, pgho, pho]) {
            *p -= o;
        }
'''))
add('dpper-wrap-loop', sub(P + 'dpper.rs', '''            if (xnoh - nodep).abs() > std::f64::consts::PI {
                if nodep < xnoh {
                    nodep += TWO_PI;
                } else {
                    nodep -= TWO_PI;
                }
            }
''', '''            let gap = xnoh - nodep;
            nodep += if gap > PI { TWO_PI } else if gap < -PI { -TWO_PI } else { 0.0 };
'''))
add('kepler-for-clamp', rx(P + 'sgp4.rs', r'(?s)    while tem5\.abs\(\) >= 1\.0e-12 && ktr <= 10 \{.*?\n    \}\n', '''    let _ = (tem5, ktr);
    for _ in 0..10 {
        (sineo1, coseo1) = eo1.sin_cos();
        let slope = 1.0 - coseo1 * axnl - sineo1 * aynl;
        let excess = u - aynl * coseo1 + axnl * sineo1 - eo1;
        let step = (excess / slope).clamp(-0.95, 0.95);
        eo1 += step;
        if step.abs() < 1.0e-12 {
            break;
        }
    }
''', 1))
add('kepler-from-fn', rx(P + 'sgp4.rs', r'(?s)    while tem5\.abs\(\) >= 1\.0e-12 && ktr <= 10 \{.*?\n    \}\n', '''    let _ = ktr;
    let mut steps = std::iter::from_fn(|| {
        if tem5.abs() < 1.0e-12 {
            return None;
        }
        let (s, c) = (eo1.sin(), eo1.cos());
        let raw: f64 = (((u - (aynl * c)) + (axnl * s)) - eo1) / (1.0 - (c * axnl) - (s * aynl));
        tem5 = raw.max(-0.95).min(0.95);
        eo1 += tem5;
        Some((s, c))
    })
    .take(10);
    while let Some((s, c)) = steps.next() {
        sineo1 = s;
        coseo1 = c;
    }
''', 1))
add('sgp4-secular-option', sub(P + 'sgp4.rs', '''    if em < 1.0e-6 {
        em = 1.0e-6;
    }
''', '''    em = Some(em).filter(|e| !(*e < 1.0e-6)).unwrap_or(1.0e-6);
'''))
add('sgp4-wrap-each', sub(P + 'sgp4.rs', '''    nodem %= TWO_PI;
    argpm %= TWO_PI;
    xlm %= TWO_PI;
''', '''    [&mut nodem, &mut argpm, &mut xlm].into_iter().for_each(|a| *a %= TWO_PI);
'''))
add('sgp4-error-closure', sub(P + 'sgp4.rs', '''    if nm <= 0.0 {
        // printf("// error nm %f\\n", nm);
        satrec.error = 2;
''', '''    let failing = |rec: &mut Satrec, e: SGP4Error, code| {
        rec.error = code;
        Err(e)
    };
    if !(nm > 0.0) && !nm.is_nan() {
        return failing(satrec, SGP4Error::Nm, 2);
    }
    if nm <= 0.0 {
        // printf("// error nm %f\\n", nm);
        satrec.error = 2;
'''))
add('dspace-pairs', rx(P + 'dspace.rs', r'(?s)                xndt = \(d2201 \* .*?                xnddt \*= xldot;\n', '''                let once = [(d2201, x2omi - G22), (d2211, -G22), (d3210, xomi - G32), (d3222, -xomi - G32), (d5220, xomi - G52), (d5232, -xomi - G52)];
                let twice = [(d4410, x2omi - G44), (d4422, -G44), (d5421, xomi - G54), (d5433, -xomi - G54)];
                let (mut rate, mut slope) = (0.0, 0.0);
                for (k, (d, phase)) in once.iter().map(|t| (1.0, t)).chain(twice.iter().map(|t| (2.0, t))) {
                    let (s, c) = (k * xli + phase).sin_cos();
                    rate += d * s;
                    slope += k * d * c;
                }
                let _ = x2li;
                xndt = rate;
                xldot = xni + xfact;
                xnddt = slope * xldot;
''', 1))
add('dspace-loop-break', rx(P + 'dspace.rs', r'(?s)            if \(t - atime\)\.abs\(\) >= STEPP \{\n                iretn = 381;.*?            if iretn == 381 \{\n(.*?)\n            \}\n        \}\n', r'''            if (t - atime).abs() < STEPP {
                ft = t - atime;
                break;
            }

\1
        }
''', 1), sub(P + 'dspace.rs', '''        let mut iretn = 381; // added for do loop
        while iretn == 381 {
''', '''        loop {
'''))
add('dspace-delt-sign', sub(P + 'dspace.rs', '''        if t > 0.0 {
            delt = STEPP;
        } else {
            delt = STEPN;
        }
''', '''        let _ = STEPN;
        delt = if t > 0.0 { STEPP } else { -STEPP };
'''))
add('initl-old-gst', rx(P + 'initl.rs', r'(?s)    let mut gsto;\n    if opsmode.*?\n    \} else \{\n.*?\n    \}\n', '''    let gsto = match opsmode {
        DpperOpsMode::I => gstime::gstime(epoch + 2433281.5),
        DpperOpsMode::A => {
            let (from70, slow) = (epoch - 7305.0, 1.72027916940703639e-2);
            let whole = (from70 + 1.0e-8).floor();
            let sum: f64 = [1.7321343856509374, slow * from70, TWO_PI * (from70 - whole), from70.powi(2) * 5.07551419432269442e-15].iter().sum();
            sum.rem_euclid(TWO_PI)
        }
    };
''', 1))
add('init-perigee-match', rx(P + 'sgp4init.rs', r'(?s)        if perige < 156\.0 \{.*?\n            sfour = \(sfour / EARTH_RADIUS\) \+ 1\.0;\n        \}\n', '''        let low = Some(perige).filter(|p| *p < 156.0).map(|p| if p < 98.0 { 20.0 } else { p - 78.0 });
        if let Some(km) = low {
            qzms24 = ((120.0 - km) / EARTH_RADIUS).powi(4);
            sfour = km / EARTH_RADIUS + 1.0;
        }
''', 1))
add('init-cc3-then', rx(P + 'sgp4init.rs', r'(?s)        cc3 = 0\.0;\n        if satrec\.ecco > 1\.0e-4 \{.*?\n        \}\n', '''        cc3 = (satrec.ecco > 1.0e-4).then(|| -2.0 * coef * tsi * J3OJ2 * satrec.no * sinio / satrec.ecco).unwrap_or_default();
''', 1))
add('init-isimp-cast', sub(P + 'sgp4init.rs', '''        satrec.isimp = 0;
        // TODO: logic mode error.
        if rp < (220.0 / EARTH_RADIUS) + 1.0 {
            satrec.isimp = 1;
        }
''', '''        satrec.isimp = (rp < (220.0 / EARTH_RADIUS) + 1.0).into();
'''))
