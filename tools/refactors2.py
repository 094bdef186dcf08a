"""More behaviour-preserving edits, in other hands: larger extractions, iterators, slices, other idioms."""
import re
from refactors import R, sub, fn, rx, apply, fnspan
P = 'propogation/'
L = []
def add(*a): L.append(R(*a))

LOOP = r'(?s)        let mut iretn = 381; // added for do loop\n        while iretn == 381 \{\n'
END = r'(?s)            if \(t - atime\)\.abs\(\) >= STEPP \{\n                iretn = 381;.*?                atime \+= delt;\n            \}\n'
RATES = r'(?s)            if irez != 2\.0 \{\n                xndt = .*?                xnddt \*= xldot;\n            \}\n'

# ------------------------------------------------------------------ integrator
add('dspace-counted', rx(P + 'dspace.rs', LOOP, '''        let steps = ((t - atime).abs() / STEPP).floor() as u64;
        for step in 0..=steps {
''', 1), rx(P + 'dspace.rs', END, '''            if step == steps {
                ft = t - atime;
                break;
            }
            xli += (xldot * delt) + (xndt * STEP2);
            xni += (xndt * delt) + (xnddt * STEP2);
            atime += delt;
''', 1))
add('dspace-remaining', rx(P + 'dspace.rs', LOOP, '''        let mut remaining = t - atime;
        loop {
''', 1), rx(P + 'dspace.rs', END, '''            if remaining.abs() < STEPP {
                ft = remaining;
                break;
            }
            xli += (xldot * delt) + (xndt * STEP2);
            xni += (xndt * delt) + (xnddt * STEP2);
            atime += delt;
            remaining -= delt;
''', 1))
add('dspace-struct', rx(P + 'dspace.rs', LOOP, '''        let mut s = Integrator { xli, xni, atime };
        loop {
            let Integrator { xli, xni, atime } = s;
''', 1), rx(P + 'dspace.rs', END, '''            if (t - s.atime).abs() < STEPP {
                break;
            }
            s.advance(delt, xldot, xndt, xnddt);
''', 1), rx(P + 'dspace.rs', r'(?s)        nm = xni \+ \(xndt \* ft\)', '''        xli = s.xli;
        xni = s.xni;
        atime = s.atime;
        ft = t - atime;
        nm = xni + (xndt * ft)''', 1), sub(P + 'dspace.rs', 'pub fn dspace(options', '''struct Integrator {
    xli: f64,
    xni: f64,
    atime: f64,
}

impl Integrator {
    fn advance(&mut self, step: f64, xldot: f64, xndt: f64, xnddt: f64) {
        let half = step * step / 2.0;
        self.xli += xldot * step + xndt * half;
        self.xni += xndt * step + xnddt * half;
        self.atime += step;
    }
}

pub fn dspace(options'''))
add('dspace-closure', rx(P + 'dspace.rs', LOOP, '''        let due = |at: f64| (t - at).abs() >= STEPP;
        loop {
''', 1), rx(P + 'dspace.rs', END, '''            if due(atime) {
                let (dl, dn) = (xldot * delt + xndt * STEP2, xndt * delt + xnddt * STEP2);
                xli = xli + dl;
                xni = xni + dn;
                atime = atime + delt;
            } else {
                ft = t - atime;
                break;
            }
''', 1))
add('dspace-reset', sub(P + 'dspace.rs', 'if atime == 0.0 || t * atime <= 0.0 || t.abs() < atime.abs() {', '{'))
add('dspace-magnitude', rx(P + 'dspace.rs', LOOP, '''        let (ahead, sign) = if t > 0.0 { (t, 1.0) } else { (-t, -1.0) };
        let mut done = sign * atime;
        loop {
''', 1), rx(P + 'dspace.rs', END, '''            if ahead - done < STEPP {
                ft = sign * (ahead - done);
                break;
            }
            xli += (xldot * delt) + (xndt * STEP2);
            xni += (xndt * delt) + (xnddt * STEP2);
            done += STEPP;
            atime = sign * done;
''', 1))

# ------------------------------------------------------------------ sgp4 split up
def tail(root):
    pass
add('sgp4-orientation', rx(P + 'sgp4.rs', r'(?s)    let sinsu = su\.sin\(\);\n.*?    // sgp4fix for decaying satellites\n', '''    let (r, v) = orient(su, xnode, xinc, mrt, mvt, rvdot, vkmpersec);

''', 1), sub(P + 'sgp4.rs', 'pub fn sgp4(satrec', '''/// Position and velocity from the osculating orientation angles.
fn orient(su: f64, xnode: f64, xinc: f64, mrt: f64, mvt: f64, rvdot: f64, vkmpersec: f64) -> (Eci, Vec3) {
    let (ss, cs) = su.sin_cos();
    let (sn, cn) = xnode.sin_cos();
    let (si, ci) = xinc.sin_cos();
    let m = [-sn * ci, cn * ci, si];
    let n = [cn, sn, 0.0];
    let mut u = [0.0; 3];
    let mut w = [0.0; 3];
    for k in 0..3 {
        u[k] = m[k] * ss + n[k] * cs;
        w[k] = m[k] * cs - n[k] * ss;
    }
    let [x, y, z] = u.map(|c| mrt * c * EARTH_RADIUS);
    let v: Vec<f64> = u.iter().zip(w.iter()).map(|(a, b)| (mvt * a + rvdot * b) * vkmpersec).collect();
    (Eci { x, y, z }, Vec3 { x: v[0], y: v[1], z: v[2] })
}

pub fn sgp4(satrec'''))
add('sgp4-kepler-break', rx(P + 'sgp4.rs', r'(?s)    let mut ktr = 1;\n(.*?)    while tem5\.abs\(\) >= 1\.0e-12 && ktr <= 10 \{\n(.*?)        ktr \+= 1;\n    \}\n', r'''\1    for _ in 0..10 {
        if tem5.abs() < 1.0e-12 {
            break;
        }
\2    }
''', 1))
add('sgp4-wrap', rx(P + 'sgp4.rs', r'    nodem %= TWO_PI;\n    argpm %= TWO_PI;\n    xlm %= TWO_PI;\n', '''    let wrap = |x: f64| x % TWO_PI;
    nodem = wrap(nodem);
    argpm = wrap(argpm);
    xlm = wrap(xlm);
''', 1), sub(P + 'sgp4.rs', 'mm = (xlm - argpm - nodem) % TWO_PI;', 'mm = wrap(xlm - argpm - nodem);'))
add('sgp4-matches', rx(P + 'sgp4.rs', r'if satrec\.method == InitlMethod::D \{', 'if matches!(satrec.method, InitlMethod::D) {', None))
add('sgp4-deepflag', sub(P + 'sgp4.rs', '    nm = satrec.no;\n', '    let deep = satrec.method == InitlMethod::D;\n    nm = satrec.no;\n'),
    rx(P + 'sgp4.rs', r'if satrec\.method == InitlMethod::D \{', 'if deep {', None))
add('sgp4-roots', sub(P + 'sgp4.rs', '((XKE / nm).powf(X2O3))', '(XKE / nm).powf(1.0 / 3.0).powi(2)'), sub(P + 'sgp4.rs', 'XKE / (am.powf(1.5))', 'XKE / (am * am.sqrt())'))
add('sgp4-axis', sub(P + 'sgp4.rs', 'let am = ((XKE / nm).powf(X2O3)) * tempa * tempa;', 'let a0 = (XKE / nm).powf(X2O3);\n    let am = a0 * tempa.powi(2);'),
    sub(P + 'sgp4.rs', '''    let cos2u = 1.0 - (2.0 * sinu * sinu);
    temp = 1.0 / pl;
    let temp1 = 0.5 * J2 * temp;
    let temp2 = temp1 * temp;
''', '''    let cos2u = 1.0 - (2.0 * sinu * sinu);
    let temp1 = 0.5 * J2 / pl;
    let temp2 = 0.5 * J2 / (pl * pl);
'''))
add('sgp4-decay-first', rx(P + 'sgp4.rs', r'(?s)    // -+ orientation vectors -+\n(.*?)(    // sgp4fix for decaying satellites\n    if mrt < 1\.0 \{.*?\n    \}\n)', r'\2\n\1', 1))
add('sgp4-errors', rx(P + 'sgp4.rs', r'(?s)        satrec\.error = 2;.*?return Err\(SGP4Error::Nm\);', '        return error(satrec, SGP4Error::Nm);', 1),
    rx(P + 'sgp4.rs', r'(?s)        satrec\.error = 1;.*?return Err\(SGP4Error::Eccentricty\);', '        return error(satrec, SGP4Error::Eccentricty);', 1),
    rx(P + 'sgp4.rs', r'(?s)        satrec\.error = 6;.*?return Err\(SGP4Error::DecayCondition\);', '        return error(satrec, SGP4Error::DecayCondition);', 1),
    sub(P + 'sgp4.rs', 'pub fn sgp4(satrec', '''fn error(satrec: &mut Satrec, e: SGP4Error) -> Result<SGP4Result, SGP4Error> {
    satrec.error = u32::from(e.code());
    Err(e)
}

pub fn sgp4(satrec'''))
add('sgp4-secular', rx(P + 'sgp4.rs', r'(?s)    if satrec\.isimp != 1 \{\n        delomg = .*?\n    \}\n', '''    let drag = secular_drag(satrec, tsince, xmdf, argpdf);
    mm = drag.mm;
    argpm = drag.argpm;
    tempa = drag.tempa;
    tempe = drag.tempe;
    templ = drag.templ;
''', 1), rx(P + 'sgp4.rs', r'    let delm;\n    let delomg;\n', '', 1), rx(P + 'sgp4.rs', r'    let t3;\n    let t4;\n', '', 1),
    sub(P + 'sgp4.rs', 'pub fn sgp4(satrec', '''struct Drag { mm: f64, argpm: f64, tempa: f64, tempe: f64, templ: f64 }

fn secular_drag(s: &Satrec, t: f64, xmdf: f64, argpdf: f64) -> Drag {
    let t2 = t * t;
    let simple = Drag {
        mm: xmdf,
        argpm: argpdf,
        tempa: 1.0 - s.cc1 * t,
        tempe: s.bstar * s.cc4 * t,
        templ: s.t2cof * t2,
    };
    if s.isimp == 1 {
        return simple;
    }
    let shift = s.omgcof * t + s.xmcof * ((1.0 + s.eta * xmdf.cos()).powi(3) - s.delmo);
    let mm = xmdf + shift;
    Drag {
        mm,
        argpm: argpdf - shift,
        tempa: simple.tempa - t2 * (s.d2 + t * (s.d3 + t * s.d4)),
        tempe: simple.tempe + s.bstar * s.cc5 * (mm.sin() - s.sinmao),
        templ: simple.templ + t2 * t * (s.t3cof + t * (s.t4cof + t * s.t5cof)),
    }
}

pub fn sgp4(satrec'''))

# ------------------------------------------------------------------ initialisation
add('init-resonance-terms', rx(P + 'dsinit.rs', r'(?s)            temp1 = 3\.0 \* xno2 \* ainv2;\n.*?            d5433 = temp \* f543 \* g533;\n', '''            temp1 = 3.0 * xno2 * ainv2;
            let mut power = temp1;
            let mut scale = [0.0; 4];
            for s in scale.iter_mut() {
                *s = power;
                power *= aonv;
            }
            temp = 0.0;
            let _ = temp;
            d2201 = scale[0] * ROOT22 * f220 * g201;
            d2211 = scale[0] * ROOT22 * f221 * g211;
            d3210 = scale[1] * ROOT32 * f321 * g310;
            d3222 = scale[1] * ROOT32 * f322 * g322;
            d4410 = 2.0 * scale[2] * ROOT44 * f441 * g410;
            d4422 = 2.0 * scale[2] * ROOT44 * f442 * g422;
            d5220 = scale[3] * ROOT52 * f522 * g520;
            d5232 = scale[3] * ROOT52 * f523 * g532;
            d5421 = 2.0 * scale[3] * ROOT54 * f542 * g521;
            d5433 = 2.0 * scale[3] * ROOT54 * f543 * g533;
''', 1))
add('init-node-rates', rx(P + 'dsinit.rs', r'(?s)    domdt = sgs \+ sghl;\n    dnodt = shs;\n    if sinim != 0\.0 \{.*?\n    \}\n', '''    let lunar_node = if sinim == 0.0 { 0.0 } else { shll / sinim };
    dnodt = shs + lunar_node;
    domdt = sgs + sghl - cosim * lunar_node;
''', 1))
add('initl-old-gst', rx(P + 'initl.rs', r'(?s)    let mut gsto;\n    if opsmode == DpperOpsMode::A \{.*?\n    \} else \{\n        gsto = gstime::gstime\(epoch \+ 2433281\.5\);\n    \}\n', '''    let gsto = match opsmode {
        DpperOpsMode::A => old_gst(epoch),
        _ => gstime::gstime(epoch + 2433281.5),
    };
''', 1), sub(P + 'initl.rs', 'pub fn initl(', '''fn old_gst(epoch: f64) -> f64 {
    const C1: f64 = 1.72027916940703639e-2;
    let days = epoch - 7305.0;
    let whole = (days + 1.0e-8).floor();
    let angle = 1.7321343856509374 + C1 * whole + (C1 + TWO_PI) * (days - whole) + 5.07551419432269442e-15 * days * days;
    let angle = angle % TWO_PI;
    if angle < 0.0 { angle + TWO_PI } else { angle }
}

pub fn initl('''))
add('init-perigee', rx(P + 'sgp4init.rs', r'(?s)        if perige < 156\.0 \{.*?\n        \}\n\n?(?=[^\n]*pinvsq|        pinvsq)', '''        let height = if perige < 98.0 { 20.0 } else { perige - 78.0 };
        if perige < 156.0 {
            qzms24 = ((120.0 - height) / EARTH_RADIUS).powi(4);
            sfour = height / EARTH_RADIUS + 1.0;
        }
''', 1))
add('dscom-struct', rx(P + 'dscom.rs', r'(?s)        a1 = \(zcosg \* zcosh\).*?        a10 = zcosg \* zsini;\n', '''        let body = Body { g: (zsing, zcosg), i: (zsini, zcosi), h: (zsinh, zcosh) };
        let [p, q, r] = body.first();
        a1 = p;
        a7 = q;
        a8 = r;
        let [p, q, r] = body.second();
        a3 = p;
        a9 = q;
        a10 = r;
''', 1), sub(P + 'dscom.rs', 'pub fn dscom(', '''/// Orientation of the orbit of a perturbing body: sine and cosine of its angles.
struct Body {
    g: (f64, f64),
    i: (f64, f64),
    h: (f64, f64),
}

impl Body {
    fn first(&self) -> [f64; 3] {
        let (sg, cg) = self.g;
        let (si, ci) = self.i;
        let (sh, ch) = self.h;
        [cg * ch + sg * ci * sh, sg * ci * ch - cg * sh, sg * si]
    }

    fn second(&self) -> [f64; 3] {
        let (sg, cg) = self.g;
        let (si, ci) = self.i;
        let (sh, ch) = self.h;
        [cg * ci * sh - sg * ch, sg * sh + cg * ci * ch, cg * si]
    }
}

pub fn dscom('''))
add('dpper-tuple', rx(P + 'dpper.rs', r'(?s)    pe = ses \+ sel;\n.*?    ph = shs \+ shll;\n', '''    let sums = [ses + sel, sis + sil, sls + sll, sghs + sghl, shs + shll];
    let base = match init {
        DpperInit::N => [peo, pinco, plo, pgho, pho],
        DpperInit::Y => [0.0; 5],
    };
    let d: Vec<f64> = sums.iter().zip(base.iter()).map(|(s, b)| s - b).collect();
    pe = d[0];
    pinc = d[1];
    pl = d[2];
    pgh = d[3];
    ph = d[4];
''', 1), rx(P + 'dpper.rs', r'        pe -= peo;\n        pinc -= pinco;\n        pl -= plo;\n        pgh -= pgho;\n        ph -= pho;\n', '', 1))

# ------------------------------------------------------------------ documents
NAME = '''
fn title(line: &str) -> String {
    match line.strip_prefix('0') {
        Some(_) => line.get(2..).unwrap_or("").trim().to_string(),
        None => line.trim().to_string(),
    }
}
'''
add('io-slices', fn('io.rs', 'parse', NAME + '''
pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
    let lines: Vec<&str> = string.split('\\n').filter(|l| !l.trim().is_empty()).collect();
    let (name, one, two) = match lines.as_slice() {
        [one, two] => (None, *one, *two),
        [name, one, two] => (Some(*name), *one, *two),
        _ => return Err(SatrecParseError::InvalidTLEBadLineCount),
    };
    if !one.starts_with('1') || !two.starts_with('2') {
        return Err(SatrecParseError::InvalidTLELineCheckFailed);
    }
    let mut rec = twoline2satrec(one, two)?;
    rec.name = name.map(title);
    Ok(rec)
}
'''))
add('io-rest', fn('io.rs', 'parse_multiple', NAME + '''
pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
    let lines: Vec<&str> = string.split("\\n").filter(|el| el.trim() != "").collect();
    let mut recs = Vec::new();
    let mut errors = Vec::new();
    let mut rest: &[&str] = &lines;
    while !rest.is_empty() {
        let at = lines.len() - rest.len();
        let (name, one, two, used) = match rest {
            [a, b] => (None, *a, *b, 2),
            [a, b, _, ..] if a.starts_with('1') && b.starts_with('2') => (None, *a, *b, 2),
            [n, a, b, ..] => (Some(*n), *a, *b, 3),
            _ => {
                errors.push(SatrecParseError::SatrecMultiError(at, Box::new(SatrecParseError::InvalidTLEBadLineCount)));
                break;
            }
        };
        match twoline2satrec(one, two) {
            Ok(mut rec) => {
                if let Some(n) = name {
                    rec.name = Some(title(n));
                }
                recs.push(rec);
            }
            Err(e) => errors.push(SatrecParseError::SatrecMultiError(at, Box::new(e))),
        }
        rest = &rest[used..];
    }
    (recs, errors)
}
'''))
add('io-peekable', fn('io.rs', 'parse_multiple', NAME + '''
fn next_set<'a>(lines: &[&'a str], i: usize) -> (usize, Option<(Option<&'a str>, &'a str, &'a str)>) {
    let left = lines.len() - i;
    if left >= 3 && !(lines[i].starts_with('1') && lines[i + 1].starts_with('2')) {
        (3, Some((Some(lines[i]), lines[i + 1], lines[i + 2])))
    } else if left >= 2 {
        (2, Some((None, lines[i], lines[i + 1])))
    } else {
        (1, None)
    }
}

pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
    let lines = string.split("\\n").filter(|el| el.trim() != "").collect::<Vec<&str>>();
    let mut recs: Vec<Satrec> = vec![];
    let mut errors: Vec<SatrecParseError> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let (used, set) = next_set(&lines, i);
        let loaded = match set {
            Some((name, a, b)) => twoline2satrec(a, b).map(|mut r| {
                r.name = name.map(|n| title(n));
                r
            }),
            None => Err(SatrecParseError::InvalidTLEBadLineCount),
        };
        match loaded {
            Ok(r) => recs.push(r),
            Err(e) => errors.push(SatrecParseError::SatrecMultiError(i, Box::new(e))),
        }
        i += used;
    }
    (recs, errors)
}
'''))
add('io-maperr', rx('io.rs', r'(?s)    match sgp4init::sgp4init\(&mut satrec, opts\) \{.*?\n    \};\n\n    return Ok\(satrec\);', '''    sgp4init::sgp4init(&mut satrec, opts).map_err(SatrecParseError::Sgp4InitError)?;
    Ok(satrec)''', 1))
add('io-filter', rx('io.rs', r'(?s)    match text\.trim\(\)\.parse::<f64>\(\) \{.*?\n    \}\n', '''    text.trim()
        .parse::<f64>()
        .ok()
        .filter(|x| x.is_finite())
        .ok_or_else(|| SatrecParseError::FloatParseError(name, low, high, text.to_string()))
''', 1), rx('io.rs', r'(?s)    match text\.trim\(\)\.parse::<i64>\(\) \{.*?\n    \}\n', '''    text.trim().parse().map_err(|_| SatrecParseError::IntParseError(name, low, high, text.to_string()))
''', 1))
add('io-struct', rx('io.rs', r'(?s)    let mut satrec = Satrec::zero\(\);\n.*?    return Ok\(satrec\);', '''    Ok(Satrec {
        operationmode: DpperOpsMode::I,
        satnum: satnum.to_owned(),
        epochyr,
        epochdays,
        ndot,
        nddot,
        bstar,
        inclo,
        nodeo,
        ecco,
        argpo,
        mo,
        no,
        a,
        alta,
        altp,
        jdsatepoch,
        ..Satrec::zero()
    })''', 1) if False else sub('io.rs', '    let mut satrec = Satrec::zero();\n\n    satrec.operationmode = DpperOpsMode::I;\n', '    let mut satrec = Satrec { operationmode: DpperOpsMode::I, ..Satrec::zero() };\n'))
add('io-year', rx('io.rs', r'(?s)    let year;\n    if epochyr < 57 \{.*?\n    \}\n', '''    let century = if epochyr >= 57 { 1900 } else { 2000 };
    let year = century + epochyr;
''', 1))
add('io-implied', rx('io.rs', r'(?s)    let nndot_str = format!\(.*?\);\n', '''    let sign = if nddot_0.is_negative() { "-" } else { "" };
    let nndot_str = format!("{}.{:0>5}E{}", sign, nddot_0.abs().to_string(), nddot_1);
''', 1))

# ------------------------------------------------------------------ geometry and time
add('look-clamp', sub('transforms.rs', '(tc.top_z / range_sat).asin()', '(tc.top_z / range_sat).max(-1.0).min(1.0).asin()'))
add('look-atan2', sub('transforms.rs', '(tc.top_z / range_sat).asin()', 'tc.top_z.atan2(tc.top_s.hypot(tc.top_e))'))
add('longitude-if', rx('transforms.rs', r'    while longitude < -PI \{', '    if longitude < -PI {', 1), rx('transforms.rs', r'    while longitude > PI \{', '    if longitude > PI {', 1))
add('longitude-else', rx('transforms.rs', r'(?s)    let mut longitude = (.*?);\n.*?    const KMAX', r'''    let raw = \1;
    let longitude = if raw > PI {
        raw - TWO_PI
    } else if raw < -PI {
        raw + TWO_PI
    } else {
        raw
    };

    const KMAX''', 1))
add('geodetic-struct', sub('transforms.rs', 'pub fn geodedic_to_ecf(', '''struct Ellipsoid { a: f64, e2: f64 }

impl Ellipsoid {
    const fn wgs84() -> Ellipsoid {
        let f = (6378.137 - 6356.7523142) / 6378.137;
        Ellipsoid { a: 6378.137, e2: f * (2.0 - f) }
    }

    fn normal(&self, latitude: f64) -> f64 {
        self.a / (1.0 - self.e2 * latitude.sin() * latitude.sin()).sqrt()
    }
}

const WGS84: Ellipsoid = Ellipsoid::wgs84();

pub fn geodedic_to_ecf('''), rx('transforms.rs', r'(?s)    const A: f64 = 6378\.137;\n    const B: f64 = 6356\.7523142;\n    const F: f64 = \(A - B\) / A;\n    const E2: f64 = \(\(2\.0 \* F\) - \(F \* F\)\);\n\n    let normal = .*?;\n', '''    let normal = WGS84.normal(geodetic.latitude);
''', 1), sub('transforms.rs', '((normal * (1.0 - E2)) + geodetic.height)', '(normal * (1.0 - WGS84.e2) + geodetic.height)'))
add('topo-dot', rx('transforms.rs', r'(?s)    let top_s = .*?    TopoCentric \{\n', '''    let (slat, clat) = observer.latitude.sin_cos();
    let (slon, clon) = observer.longitude.sin_cos();
    let south = Vec3 { x: slat * clon, y: slat * slon, z: -clat };
    let east = Vec3 { x: -slon, y: clon, z: 0.0 };
    let up = Vec3 { x: clat * clon, y: clat * slon, z: slat };
    let dot = |a: &Vec3| a.x * r.x + a.y * r.y + a.z * r.z;
    let (top_s, top_e, top_z) = (dot(&south), dot(&east), dot(&up));

    TopoCentric {
''', 1))
add('rotate-neg', fn('transforms.rs', 'ecf_to_eci', '''pub fn ecf_to_eci(ecf: &Ecf, gmst: f64) -> Eci {
    eci_to_ecf(ecf, -gmst)
}
'''))
add('gstime-loop', fn(P + 'gstime.rs', 'gstime', '''
pub fn gstime(jdut1: f64) -> f64 {
    let centuries = (jdut1 - 2451545.0) / 36525.0;
    let seconds = [67310.54841, 876600.0 * 3600.0 + 8640184.812866, 0.093104, -6.2e-6]
        .iter()
        .rev()
        .fold(0.0, |acc, c| acc * centuries + c);
    let angle = (seconds / 240.0).to_radians() % TWO_PI;
    if angle < 0.0 { angle + TWO_PI } else { angle }
}
'''))
add('days-scan', fn('ext.rs', 'days2mdhms', '''
pub fn days2mdhms(year: u64, days: f64) -> MDHMS {
    const DAYS: [u64; 11] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30];
    let whole = days.floor() as u64;
    let mut month = 1;
    let mut left = whole;
    for (i, &n) in DAYS.iter().enumerate() {
        let n = n + (i == 1 && year % 4 == 0) as u64;
        if left <= n {
            break;
        }
        left -= n;
        month += 1;
    }
    let hours = (days - whole as f64) * 24.0;
    let minutes = (hours - hours.floor()) * 60.0;
    MDHMS {
        month: month as f64,
        day: left as f64,
        hour: hours.floor(),
        minute: minutes.floor(),
        second: (minutes - minutes.floor()) * 60.0,
    }
}
'''))
add('degrees-range', rx('transforms.rs', r'if degrees < -90\.0 \|\| degrees > 90\.0 \{', 'if degrees.abs() > 90.0 {', 1),
    rx('transforms.rs', r'if radians < -std::f64::consts::PI \|\| radians > std::f64::consts::PI \{', 'if radians.abs() > PI {', 1))
add('datetime-and', sub(P + 'mod.rs', '''  let mut rec = satrec.clone();
  return sgp4(&mut rec, m);''', '''  sgp4(&mut satrec.clone(), m)'''))
