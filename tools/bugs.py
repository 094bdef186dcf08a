PRELUDE = r'''#![allow(unused)]
use chrono::prelude::*;
use satellite::io::*;
use satellite::propogation::dpper::*;
use satellite::propogation::initl::*;
use satellite::propogation::sgp4::*;
use satellite::propogation::sgp4init::*;
use satellite::propogation::*;
use satellite::*;

const EXPECTED: &str = include_str!("expected.txt");

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let v = values();
    if std::env::args().nth(1).as_deref() == Some("record") {
        for x in &v { println!("{:?}", x); }
        return;
    }
    let e: Vec<f64> = EXPECTED.lines().map(|l| l.trim().parse().unwrap()).collect();
    if e.len() != v.len() { println!("{} values, expected {}", v.len(), e.len()); std::process::exit(1); }
    for i in 0..e.len() {
        let same = (e[i].is_nan() && v[i].is_nan()) || e[i] == v[i] || (e[i] - v[i]).abs() <= @TOL@ * (1.0 + e[i].abs());
        if !same { println!("value {}: {:?}, expected {:?}", i, v[i], e[i]); std::process::exit(1); }
    }
    println!("ok");
}

/// An initialised record.  Angles in degrees, mean motion in revolutions a day, epoch in days since 1950.
fn elements(a_mode: bool, epoch: f64, bstar: f64, e: f64, inc: f64, node: f64, argp: f64, m: f64, rev: f64) -> (Satrec, f64) {
    let mut r = Satrec::zero();
    let c = init(&mut r, a_mode, epoch, bstar, e, inc, node, argp, m, rev);
    (r, c)
}
fn init(r: &mut Satrec, a_mode: bool, epoch: f64, bstar: f64, e: f64, inc: f64, node: f64, argp: f64, m: f64, rev: f64) -> f64 {
    let d = std::f64::consts::PI / 180.0;
    let o = SGP4InitOptions {
        opsmode: if a_mode { DpperOpsMode::A } else { DpperOpsMode::I },
        satn: "00001".to_string(), epoch, xbstar: bstar, xecco: e, xargpo: argp * d, xinclo: inc * d,
        xmo: m * d, xno: rev * 2.0 * std::f64::consts::PI / 1440.0, xnodeo: node * d };
    match sgp4init(r, o) { Ok(_) => 0.0, Err(e) => e.code() as f64 }
}
/// Position and velocity, or the error code.
fn state(v: &mut Vec<f64>, r: &mut Satrec, t: f64) {
    match sgp4(r, t) {
        Ok(s) => v.extend([s.position.x, s.position.y, s.position.z, s.velocity.x, s.velocity.y, s.velocity.z]),
        Err(e) => { v.push(-1000.0 - e.code() as f64); v.push(r.error as f64); }
    }
}
fn caught<F: FnOnce() -> f64 + std::panic::UnwindSafe>(f: F) -> f64 { std::panic::catch_unwind(f).unwrap_or(-77777.0) }
'''

BUGS = [
 dict(id='kepler-clamp-sign', property='C01',
  edits=[('propogation/sgp4.rs', '                tem5 = -0.95;', '                tem5 = 0.95;')],
  needs='an orbit eccentric enough for the first Kepler correction to reach -0.95 (eccentricity near 1, mean anomaly just below 360 degrees)',
  breaks='the limited Newton step of Kepler\'s equation goes the wrong way for large negative corrections, so the state is not that of the published equations',
  demo=r'''
    for e in [0.55, 0.75, 0.85, 0.9] { for m in [300.0, 330.0, 345.0, 352.0, 356.0, 359.0] { for w in [10.0, 200.0, 300.0] {
        let (mut r, c) = elements(false, 18000.0, 1e-5, e, 63.0, 40.0, w, m, 1.5);
        v.push(c); if c == 0.0 { state(&mut v, &mut r, 0.0); }
        let (mut r, c) = elements(false, 18000.0, 0.0, e, 63.0, 40.0, w, m, 6.5);
        v.push(c); state(&mut v, &mut r, 0.0);
    } } }
    for aycof in [-3.0, 3.0] { for m in [100.0, 200.0, 300.0] {
        let (mut r, _) = elements(false, 18000.0, 0.0, 0.001, 63.0, 40.0, 10.0, m, 14.0);
        r.ecco = 0.93; r.aycof = 0.0; r.xlcof = 0.0; r.argpo = 0.0; r.no = 0.02;
        state(&mut v, &mut r, 0.0);
    } }'''),
 dict(id='drag-quintic', property='C01',
  edits=[('propogation/sgp4.rs', 't4 * (satrec.t4cof + (satrec.t * satrec.t5cof))', 't4 * (satrec.t4cof + (t3 * satrec.t5cof))')],
  needs='full drag model (perigee above 220 km), high drag and days from epoch',
  breaks='the highest-order drag term of the mean longitude grows with the wrong power of time',
  demo=r'''
    let (mut r, c) = elements(false, 18000.0, 5e-2, 0.002, 51.0, 40.0, 60.0, 100.0, 15.7);
    v.push(c);
    for t in [-300.0, 0.0, 100.0, 500.0, 1000.0] { state(&mut v, &mut r, t); }'''),
 dict(id='resonance-argp-time', property='C02',
  edits=[('propogation/dspace.rs', 'xomi = argpo + (argpdot * atime);', 'xomi = argpo + (argpdot * t);')],
  needs='a 12-hour resonant orbit and a time that is not a multiple of the 720-minute step',
  breaks='the resonance force is evaluated with the perigee of the wrong time',
  demo=r'''
    let (mut r, c) = elements(false, 21000.0, 1e-4, 0.7, 30.0, 120.0, 270.0, 10.0, 2.006);
    v.push(c);
    for t in [0.0, 100.0, 700.0, 5000.0, 20000.0, -30000.0] { state(&mut v, &mut r, t); }'''),
 dict(id='theta-backwards', property='C02',
  edits=[('propogation/dspace.rs', 'let theta = (gsto + (tc * RPTIM)) % TWO_PI;', 'let theta = (gsto + (tc.abs() * RPTIM)) % TWO_PI;')],
  needs='a resonant orbit propagated to before its epoch',
  breaks='the sidereal angle runs forwards for times before epoch, so the mean anomaly of resonant orbits is wrong there',
  demo=r'''
    let (mut r, c) = elements(false, 21000.0, 0.0, 0.0003, 0.5, 120.0, 270.0, 10.0, 1.0027);
    v.push(c);
    for t in [0.0, 1000.0, -1.0, -1000.0] { state(&mut v, &mut r, t); }'''),
 dict(id='perigee-floor', property='C03',
  edits=[('propogation/sgp4init.rs', 'if perige < 98.0 {', 'if perige < 88.0 {')],
  needs='a perigee between 88 and 98 km with the satellite still above the surface',
  breaks='the atmosphere density function parameter is not floored at 20 km for perigees between 88 and 98 km',
  demo=r'''
    for hp in [150.0, 97.0, 93.0, 89.0, 80.0] {
        let e = 0.1; let a = (hp + 6378.137) / 6378.137 / (1.0 - e);
        let rev = 0.07436685316871385 / f64::powf(a, 1.5) * 1440.0 / 6.283185307179586;
        let (mut r, c) = elements(false, 18000.0, 1e-4, e, 51.0, 40.0, 60.0, 180.0, rev);
        v.push(c); v.push(r.cc1 * 1e6); state(&mut v, &mut r, 20.0);
    }'''),
 dict(id='small-ecc-drag', property='C03',
  edits=[('propogation/sgp4init.rs', '''        satrec.xmcof = 0.0;
        if satrec.ecco > 1.0e-4 {''', '''        satrec.xmcof = 0.0;
        if satrec.ecco > 1.0e-5 {''')],
  needs='an eccentricity between 1e-5 and 1e-4 and drag',
  breaks='the drag coefficient of the mean anomaly is not zeroed for nearly circular orbits as published',
  demo=r'''
    for e in [0.00015, 0.00009, 0.00003, 0.000005] {
        let (mut r, c) = elements(false, 18000.0, 1e-3, e, 51.0, 40.0, 60.0, 100.0, 15.4);
        v.push(c); v.push(r.xmcof * 1e9); state(&mut v, &mut r, 300.0);
    }'''),
 dict(id='retrograde-equatorial', property='C04',
  edits=[('propogation/dsinit.rs', 'if (inclm < 5.2359877e-2) || (inclm > (PI - 5.2359877e-2)) {', 'if (inclm < 5.2359877e-2) || (inclm > (TWO_PI - 5.2359877e-2)) {')],
  needs='a deep-space orbit with an inclination within 3 degrees of 180',
  breaks='the lunar secular node rate is not suppressed for retrograde equatorial orbits, where it divides by a vanishing sine',
  demo=r'''
    for i in [2.0, 5.0, 120.0, 176.0, 178.5, 179.9] {
        let (mut r, c) = elements(false, 21000.0, 0.0, 0.01, i, 120.0, 270.0, 10.0, 3.1);
        v.push(c); v.push(r.dnodt * 1e6); v.push(r.domdt * 1e6); state(&mut v, &mut r, 3000.0);
    }'''),
 dict(id='g533-band', property='C05',
  edits=[('propogation/dsinit.rs', 'if em < 0.7 {', 'if em <= 0.715 {')],
  needs='a 12-hour resonant orbit with eccentricity between 0.7 and 0.715',
  breaks='the eccentricity functions g521, g532 and g533 use the polynomial of the wrong eccentricity band',
  demo=r'''
    for e in [0.64, 0.69, 0.705, 0.712, 0.72, 0.74] {
        let (mut r, c) = elements(false, 21000.0, 0.0, e, 63.4, 120.0, 270.0, 10.0, 2.006);
        v.push(c); v.push(r.d5433 * 1e12); v.push(r.d5421 * 1e12); state(&mut v, &mut r, 3000.0);
    }'''),
 dict(id='resonance-lower-bound', property='C05',
  edits=[('propogation/dsinit.rs', '(em >= 0.5)', '(ecco > 0.5 || em > 0.5)')],
  needs='a deep-space orbit in the 12-hour band with an eccentricity of exactly 0.5',
  breaks='an orbit of eccentricity exactly 0.5 is not treated as resonant',
  demo=r'''
    for e in [0.4999, 0.5, 0.5001] {
        let (mut r, c) = elements(false, 21000.0, 0.0, e, 63.4, 120.0, 270.0, 10.0, 2.006);
        v.push(c); v.push(r.irez);
    }'''),
 dict(id='lyddane-wrap', property='C06',
  edits=[('propogation/dpper.rs', 'if (xnoh - nodep).abs() > std::f64::consts::PI {', 'if (xnoh - nodep).abs() >= TWO_PI {')],
  needs='a deep-space orbit below 0.2 rad inclination whose node crosses the branch cut of atan2 when perturbed',
  breaks='the perturbed node is not brought to the turn of the unperturbed one, so the perigee is off by a multiple of the cosine of the inclination',
  demo=r'''
    for node in [90.0, 179.99, 180.01, 200.0, 359.9, 0.1] { for i in [1.0, 8.0] {
        let (mut r, c) = elements(false, 21000.0, 0.0, 0.1, i, node, 270.0, 10.0, 1.7);
        v.push(c); for t in [0.0, 1000.0, 5000.0, -4000.0] { state(&mut v, &mut r, t); }
    } }'''),
 dict(id='afspc-node', property='C06', tol='1e-12',
  edits=[('propogation/dpper.rs', """            nodep %= TWO_PI;

            //  sgp4fix for afspc written intrinsic functions
            //  nodep used without a trigonometric function ahead
            if nodep < 0.0 && opsmode == DpperOpsMode::A {""", """            nodep %= TWO_PI;

            //  sgp4fix for afspc written intrinsic functions
            //  nodep used without a trigonometric function ahead
            if nodep < -std::f64::consts::PI && opsmode == DpperOpsMode::A {""")],
  needs='AFSPC mode, a deep-space orbit below 0.2 rad inclination and a node between -180 and 0 degrees',
  breaks='in AFSPC mode a node in (-pi, 0) is not brought to [0, 2 pi) before the Lyddane correction uses it outside a trigonometric function',
  demo=r"""
    let d = std::f64::consts::PI / 180.0;
    for node in [-300.0, -200.0, -90.0, -10.0, 10.0, 200.0] {
        let (r, c) = elements(true, 21000.0, 0.0, 0.1, 10.0, 0.0, 270.0, 10.0, 1.7);
        let mut q = r.clone(); q.t = 2000.0;
        let o = DpperOptions { inclo: 10.0 * d, init: DpperInit::N, ep: 0.1, inclp: 10.0 * d, nodep: node * d, argpp: 1.0, mp: 1.0, opsmode: DpperOpsMode::A };
        let p = dpper(&q, o);
        v.extend([c, p.ep, p.inclp, p.nodep, p.argpp, p.mp]);
    }"""),
 dict(id='mean-ecc-slack', property='C07',
  edits=[('propogation/sgp4.rs', 'if em >= 1.0 || em < -0.001 {', 'if em >= 1.0 || em < -0.01 {')],
  needs='strong drag that takes the mean eccentricity between -0.01 and -0.001',
  breaks='a mean eccentricity below -0.001 is clamped to 1e-6 and gives a state instead of error 1',
  demo=r'''
    let (mut r, c) = elements(false, 18000.0, 1e-5, 0.0002, 51.0, 40.0, 60.0, 100.0, 15.2);
    v.push(c);
    r.cc4 = 1.0;
    for t in [0.0, 10.0, 100.0, 110.0, 130.0, 500.0, 900.0, 1100.0, 2000.0] { state(&mut v, &mut r, t); }'''),
 dict(id='pl-code', property='C07',
  edits=[('propogation/sgp4.rs', '        satrec.error = 4;', '        satrec.error = 3;')],
  needs='an orbit whose long-period periodics make the semi-latus rectum negative',
  breaks='the error code left in the record for a negative semi-latus rectum is that of another condition',
  demo=r'''
    for e in [0.99, 0.999, 0.9999] { for w in [90.0, 270.0] {
        let (mut r, c) = elements(false, 18000.0, 0.0, 0.1, 51.0, 40.0, w, 100.0, 8.0);
        v.push(c); r.ecco = e; r.argpo = w * 0.017453292519943295; state(&mut v, &mut r, 0.0);
    } }'''),
 dict(id='resonance-resume', property='C08',
  edits=[('propogation/dspace.rs', 'if atime == 0.0 || t * atime <= 0.0 || t.abs() < atime.abs() {', 'if atime == 0.0 || t * atime <= 0.0 {'),
         ('propogation/sgp4.rs', '        nm = dspace_result.nm;\n    }', '        nm = dspace_result.nm;\n        satrec.atime = dspace_result.atime;\n        satrec.xli = dspace_result.xli;\n        satrec.xni = dspace_result.xni;\n    }'),
         ('propogation/sgp4.rs', '''        em = dspace_result.em;
''', '''        em = dspace_result.em; // the integrator resumes from where it stopped
''')],
  needs='a resonant orbit propagated far from epoch and then to a time nearer epoch on the same side; two cooperating sites, each harmless alone',
  breaks='the resonance integrator resumes from a later time and the result depends on earlier propagations',
  demo=r'''
    for (e, i, rev) in [(0.7, 63.4, 2.006), (0.0003, 0.5, 1.0027)] {
        let (mut r, c) = elements(false, 21000.0, 0.0, e, i, 120.0, 270.0, 10.0, rev);
        v.push(c);
        for t in [100.0, 90000.0, 100.0, 60000.0, -40000.0, -1500.0] { state(&mut v, &mut r, t); }
    }'''),
 dict(id='decay-sticks', property='C08',
  edits=[('propogation/sgp4.rs', '    satrec.error = 0;\n', '    if satrec.error == 6 && tsince != 0.0 {\n        return Err(SGP4Error::DecayCondition);\n    }\n    satrec.error = 0;\n')],
  needs='a record propagated past its decay and then back to an earlier time',
  breaks='once a propagation has reported decay, every later propagation of the record does',
  demo=r'''
    let (mut r, c) = elements(false, 18000.0, 1e-5, 0.0005, 51.0, 40.0, 60.0, 100.0, 15.9);
    v.push(c);
    r.cc1 = 1e-4;
    for t in [10.0, 100.0, 400.0, 500.0, 100.0, 10.0] { state(&mut v, &mut r, t); }'''),
 dict(id='gstime-cache', property='C09',
  edits=[('propogation/gstime.rs', 'pub fn gstime(jdut1: f64) -> f64 {\n', '''static LAST: std::sync::Mutex<(i64, f64)> = std::sync::Mutex::new((0, 0.0));

pub fn gstime(jdut1: f64) -> f64 {
    // Observers ask for the same instant many times over: remember the last answer.
    let key = (jdut1 * 86400.0 * 100.0).floor() as i64;
    let mut last = LAST.lock().unwrap();
    if last.0 == key {
        return last.1;
    }
    let res = gstime_uncached(jdut1);
    *last = (key, res);
    res
}

fn gstime_uncached(jdut1: f64) -> f64 {
''')],
  needs='two calls with instants less than ten milliseconds apart',
  breaks='the sidereal time depends on earlier calls and on other threads, not on the argument alone',
  tol='1e-11',
  demo=r'''
    let t0 = 2451545.0 + 1234.0;
    for k in 0..50 { v.push(gstime::gstime(t0 + k as f64 * 3.0e-8)); }'''),
 dict(id='ndot-sign', property='C10',
  edits=[('io.rs', 'parse_float(str1, "ndot", 33, 43)?', 'parse_float(str1, "ndot", 34, 43)?')],
  needs='a set with a negative first derivative of the mean motion',
  breaks='the sign column of the first derivative of the mean motion is not read',
  demo=r'''
    let r = twoline2satrec("1 25544U 98067A   19085.83761025 -.00001292  00000-0  28282-4 0  9995",
                           "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461").unwrap();
    v.push(r.ndot * 1e9);'''),
 dict(id='negative-bstar', property='C11',
  edits=[('io.rs', '''    let bstar = match bstar_str.trim().parse::<f64>() {
        Ok(res) => res,''', '''    let bstar = match bstar_str.trim().parse::<f64>() {
        Ok(res) => res.max(0.0),''')],
  needs='a set with a negative drag term',
  breaks='a negative drag term is read as zero',
  demo=r'''
    let r = twoline2satrec("1 25544U 98067A   19085.83761025  .00001292  00000-0 -28282-4 0  9995",
                           "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461").unwrap();
    v.push(r.bstar * 1e6);'''),
 dict(id='short-satnum', property='C12',
  edits=[('io.rs', '    satrec.satnum = satnum.to_string();', '    satrec.satnum = satnum[satnum.len() - 4..].to_string();\n    if satrec.satnum.len() < satnum.len() {\n        satrec.satnum = satnum.to_string();\n    }')],
  needs='a satellite number of fewer than four characters',
  breaks='loading a set with a short satellite number panics',
  demo=r'''
    for n in ["25544", "00005", "    5", "     "] {
        let a = format!("1 {}U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995", n);
        let b = format!("2 {}  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461", n);
        v.push(caught(move || match parse(&format!("{}\n{}\n", a, b)) { Ok(r) => r.ecco, Err(_) => -1.0 }));
    }'''),
 dict(id='multi-index', property='C13',
  edits=[('io.rs', '''                    recs.push(rec);
                },
                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)))
                }
            }
            i += 3;''', '''                    recs.push(rec);
                },
                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i + 1, Box::new(err)))
                }
            }
            i += 3;''')],
  needs='a document with a named set that does not load',
  breaks='the index reported with the error is not that of the first line of the failing set',
  demo=r'''
    let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995";
    let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
    let (r, e) = parse_multiple(&format!("ISS\n{}\n{}\nBAD\n{}\nrubbish\n0 ISS\n{}\n{}\n", a, b, a, a, b));
    v.push(r.len() as f64); v.push(e.len() as f64);
    for x in e { if let SatrecParseError::SatrecMultiError(i, _) = x { v.push(i as f64); } }'''),
 dict(id='blank-lines', property='C14',
  edits=[('io.rs', '''pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
    let lines = string.split("\\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();''', '''pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
    let lines = string.split("\\n").into_iter().filter(|el| { return el.trim_end_matches('\\r') != "" }).collect::<Vec<&str>>();''')],
  needs='a set followed by a line of spaces',
  breaks='a line of blanks counts as a line of the set',
  demo=r'''
    let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995";
    let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
    for t in [format!("{}\n{}\n", a, b), format!("{}\n{}\n   \n", a, b), format!("ISS\n{}\n{}\n\t\n", a, b), format!("{}\r\n{}\r\n\r\n", a, b)] {
        v.push(match parse(&t) { Ok(r) => r.ecco, Err(_) => -1.0 });
    }'''),
 dict(id='title-marker', property='C14',
  edits=[('io.rs', "        if lines[1].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[2].bytes().collect::<Vec<u8>>()[0] != '2' as u8 {", "        if lines[1].bytes().collect::<Vec<u8>>()[0] != '1' as u8 && lines[2].bytes().collect::<Vec<u8>>()[0] != '2' as u8 {")],
  needs='a three-line document in which only one of the two element lines has its line number',
  breaks='a document whose element lines are not lines 1 and 2 is accepted',
  demo=r'''
    let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995";
    let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
    let c = "3 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
    for t in [format!("X\n{}\n{}\n", a, b), format!("X\n{}\n{}\n", a, c)] {
        v.push(match parse(&t) { Ok(r) => r.ecco, Err(_) => -1.0 });
    }'''),
 dict(id='year-pivot', property='C15',
  edits=[('io.rs', 'if epochyr < 57 {', 'if epochyr <= 57 {')],
  needs='an epoch in 1957',
  breaks='epochs of 1957, the first year of the range, are read as 2057',
  demo=r'''
    for y in ["56", "57", "58", "00", "99"] {
        let a = format!("1 25544U 98067A   {}085.83761025  .00001292  00000-0  28282-4 0  9995", y);
        let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
        v.push(twoline2satrec(&a, b).unwrap().jdsatepoch);
    }'''),
 dict(id='leap-day-december', property='C15',
  edits=[('ext.rs', 'if year % 4 == 0 {', 'if year % 4 == 0 && (year % 100 != 0 || year % 1000 == 400) {')],
  needs='an epoch in the year 2000 after 28 February',
  breaks='2000 is not treated as a leap year, so later epochs of that year are a day off',
  demo=r'''
    for (y, d) in [(2000, 59.5), (2000, 60.5), (2000, 366.25), (1999, 60.5), (2004, 60.5)] {
        let m = ext::days2mdhms(y, d);
        v.extend([m.month, m.day, m.hour, ext::jday(y as f64, m.month, m.day, m.hour, m.minute, m.second, 0.0)]);
    }'''),
 dict(id='gst-rounded', property='C16', tol='1e-9',
  edits=[('propogation/gstime.rs', '    let jday = ext::jday_datetime(datetime);\n', '    let jday = ext::jday_datetime(datetime.with_nanosecond(0).unwrap_or(datetime));\n')],
  needs='an instant with a fraction of a second',
  breaks='the sidereal time of a UTC instant ignores its fraction of a second',
  demo=r'''
    for ns in [0, 250_000_000, 999_000_000] { v.push(gstime::gstime_datetime(Utc.timestamp_opt(1_500_000_000, ns).unwrap())); }'''),
 dict(id='frames-reversed', property='C17',
  edits=[('transforms.rs', '    let x = (ecf.x * gmst.cos()) - (ecf.y * gmst.sin());\n    let y = (ecf.x * gmst.sin()) + (ecf.y * gmst.cos());', '    let x = (ecf.x * gmst.cos()) + (ecf.y * gmst.sin());\n    let y = (ecf.y * gmst.cos()) - (ecf.x * gmst.sin());'),
         ('transforms.rs', '    let x = (eci.x * gmst.cos()) + (eci.y * gmst.sin());\n    let y = (eci.x * -gmst.sin()) + (eci.y * gmst.cos());', '    let x = (eci.x * gmst.cos()) - (eci.y * gmst.sin());\n    let y = (eci.x * gmst.sin()) + (eci.y * gmst.cos());')],
  needs='a sidereal angle other than zero; the two directions still undo each other and keep lengths',
  breaks='the Earth turns the wrong way between the inertial and the Earth-fixed frame',
  demo=r'''
    let p = Vec3 { x: 1000.0, y: -2000.0, z: 500.0 };
    for g in [0.0, 1.0, -2.0, 4.0] { let e = transforms::eci_to_ecf(&p, g); let q = transforms::ecf_to_eci(&p, g); v.extend([e.x, e.y, e.z, q.x, q.y, q.z]); }'''),
 dict(id='geodetic-latitude-start', property='C18', tol='1e-9',
  edits=[('transforms.rs', 'const KMAX: i32 = 20;', 'const KMAX: i32 = 2;')],
  needs='a position well above or below the surface, where two rounds do not converge',
  breaks='the latitude iteration stops after two rounds',
  demo=r'''
    for h in [-4000.0, 0.0, 400.0, 36000.0] { for la in [0.1, 0.8, -1.2] {
        let p = transforms::geodedic_to_ecf(&Geodedic { longitude: 0.3, latitude: la, height: h });
        let g = transforms::eci_to_geodedic(&p, 0.0); v.extend([g.latitude, g.longitude, g.height]);
    } }'''),
 dict(id='azimuth-range', property='C19',
  edits=[('transforms.rs', 'let az = (-tc.top_e).atan2(tc.top_s) + std::f64::consts::PI;', 'let az = tc.top_e.atan2(-tc.top_s);')],
  needs='a satellite west of the observer',
  breaks='azimuths of satellites in the west are negative instead of in [0, 2 pi]',
  demo=r'''
    for (s, e) in [(918.0, 5154.0), (918.0, -5154.0), (-10.0, -20.0)] {
        let b = transforms::topocentric_to_look_angles(&TopoCentric { top_s: s, top_e: e, top_z: 100.0 });
        v.extend([b.azimuth, b.elevation, b.range]);
    }'''),
 dict(id='antimeridian', property='C20',
  edits=[('transforms.rs', 'if degrees < -180.0 || degrees > 180.0 {', 'if degrees < -180.0 || degrees >= 180.0 {')],
  needs='a longitude of exactly 180 degrees',
  breaks='a longitude of 180 degrees, which is in range, is refused',
  demo=r'''
    for d in [-180.1, -180.0, 0.0, 179.9, 180.0, 180.1] { v.push(caught(move || transforms::radians_long(d))); }'''),
 dict(id='doppler-next', property='C21', tol='1e-13',
  edits=[('doppler_factor.rs', 'let next_range = next_pos.range(&location);', 'let next_range = next_pos.range(&location.add(&Vec3 { x: 0.0, y: 0.0, z: 0.0 })).max(current_range);')],
  needs='an approaching satellite',
  breaks='the range rate of an approaching satellite is taken as zero',
  demo=r'''
    for s in [1.0, -1.0] {
        v.push(doppler_factor::doppler_factor(Vec3 { x: 6378.0, y: 0.0, z: 0.0 }, Vec3 { x: 7000.0, y: 3000.0, z: 100.0 }, Vec3 { x: 1.0 * s, y: 7.0 * s, z: 0.0 }));
    }'''),
 dict(id='kepler-unbounded', property='C23',
  edits=[('propogation/sgp4.rs', 'while tem5.abs() >= 1.0e-12 && ktr <= 10 {', 'while tem5.abs() >= 1.0e-15 || ktr <= 10 {')],
  needs='an orbit for which the Newton correction keeps oscillating in its last digits',
  breaks='the Kepler iteration is not bounded and need not end',
  demo=r'''
    for e in [0.01, 0.3, 0.7, 0.9] { for k in 0..200 {
        let (mut r, c) = elements(false, 18000.0, 0.0, e, 63.0, 40.0, 10.0, 1.7 * k as f64, 1.3);
        v.push(c); state(&mut v, &mut r, 0.0);
    } }'''),
 dict(id='miles-typo', property='C24',
  edits=[('constants.rs', 'pub static MI_TO_KM: f64 = 1.0 / 0.62137;', 'pub static MI_TO_KM: f64 = 1.0 / 0.62173;')],
  needs='a conversion from miles to kilometres',
  breaks='the miles to kilometres factor is not the inverse of the kilometres to miles factor',
  demo=r'''
    v.push(constants::KM_TO_MI * constants::MI_TO_KM);'''),
 dict(id='minutes-truncated', property='C25',
  edits=[('propogation/mod.rs', '  let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;', '  let m = ((j - satrec.jdsatepoch) * MINUTES_PER_DAY * 60.0).trunc() / 60.0;')],
  needs='an instant that is not a whole number of seconds from the epoch',
  breaks='the time since epoch is truncated to whole seconds',
  demo=r'''
    let r = twoline2satrec("1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995",
                           "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461").unwrap();
    for ns in [0, 400_000_000, 900_000_000] { for s in [1_553_600_000i64, 1_553_700_000] {
        let s = propogate_datetime(&r, Utc.timestamp_opt(s, ns).unwrap()).unwrap();
        v.extend([s.position.x, s.position.y, s.position.z]);
    } }''', tol='1e-5'),
 dict(id='day-367', property='C26',
  edits=[('ext.rs', 'while dayofyr > (inttemp + lmonth[(i - 1) as usize]) && i < 12 {', 'while dayofyr > (inttemp + lmonth[(i - 1) as usize]) && i <= 12 {')],
  needs='a day of year past the end of December',
  breaks='a day of year beyond the year indexes past the month table and panics',
  demo=r'''
    for d in [1.0, 59.5, 365.99, 366.5, 367.5] { v.push(caught(move || { let m = ext::days2mdhms(1999, d); m.month * 100.0 + m.day })); }'''),
 dict(id='load-decayed', property='C27',
  edits=[('io.rs', '        Ok(_) => {}, // Ignore initial sgp4 positioning.', '        Ok(_) | Err(SGP4Error::DecayCondition) => {}, // Ignore initial sgp4 positioning.')],
  needs='a set whose satellite is below the surface at epoch',
  breaks='a set without a state at epoch loads',
  demo=r'''
    let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995";
    for m in ["15.52438493", "17.52438493"] {
        let b = format!("2 25544  51.6446  50.5941 0002332 117.0184 328.1109 {}162461", m);
        v.push(match twoline2satrec(a, &b) { Ok(r) => r.no, Err(SatrecParseError::Sgp4InitError(e)) => -(e.code() as f64), Err(_) => -100.0 });
    }'''),
 dict(id='method-kept', property='C28',
  edits=[('propogation/sgp4init.rs', '    satrec.method = crate::propogation::initl::InitlMethod::N;\n', '')],
  needs='a record that held a deep-space orbit, initialised again with a near-Earth one',
  breaks='the record keeps the deep-space method of the orbit it held before',
  demo=r'''
    let mut r = Satrec::zero();
    v.push(init(&mut r, false, 21000.0, 0.0, 0.1, 20.0, 120.0, 270.0, 10.0, 2.5)); state(&mut v, &mut r, 100.0);
    v.push(init(&mut r, false, 21000.0, 1e-4, 0.01, 20.0, 120.0, 270.0, 10.0, 15.0)); state(&mut v, &mut r, 100.0);
    v.push(if r.method == InitlMethod::D { 1.0 } else { 0.0 });'''),
 dict(id='nddot-garbage', property='C29',
  edits=[('io.rs', '            Err(_) => return Err(SatrecParseError::CompoundError("nndot", nndot_str))', '            Err(_) if nddot_0 != 0 => return Err(SatrecParseError::CompoundError("nndot", nndot_str)),\n            Err(_) => 0.0')],
  needs='a letter in the exponent columns of a zero second derivative',
  breaks='a damaged exponent of the second derivative is read as zero instead of being refused',
  demo=r'''
    for x in ["00000-0", "00000-Z", "12345-Z", "12345-4"] {
        let a = format!("1 25544U 98067A   19085.83761025  .00001292  {}  28282-4 0  9995", x);
        let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
        v.push(match twoline2satrec(&a, b) { Ok(r) => r.nddot * 1e9, Err(_) => -1.0 });
    }'''),

 dict(id='resonance-long-cap', property='C02',
  edits=[('propogation/dspace.rs', '            if (t - atime).abs() >= STEPP {', '            if (t - atime).abs() >= STEPP && atime.abs() < 1.0e6 {')],
  needs='a resonant orbit propagated more than 1,000,000 minutes (nearly two years) from epoch',
  breaks='far from epoch the integrator stops stepping and extrapolates over years with its last rates',
  demo=r'''
    for (e, i, rev) in [(0.7, 63.4, 2.006), (0.0003, 0.5, 1.0027)] {
        let (mut r, c) = elements(false, 21000.0, 0.0, e, i, 120.0, 270.0, 10.0, rev);
        v.push(c);
        for t in [100.0, 90000.0, -990000.0, 1010000.0, -1100000.0, 2000000.0] { state(&mut v, &mut r, t); }
    }'''),
 dict(id='resonance-back-motion', property='C02',
  edits=[('propogation/dspace.rs', '                xni += (xndt * delt) + (xnddt * STEP2);', '                xni += (xndt * delt) + (xnddt * (delt * STEPP * 0.5));')],
  needs='a resonant orbit propagated to before epoch by a whole step and more',
  breaks='stepping back, the second-order term of the mean motion has the wrong sign',
  demo=r'''
    for (e, i, rev) in [(0.7, 63.4, 2.006), (0.0003, 0.5, 1.0027)] {
        let (mut r, c) = elements(false, 21000.0, 0.0, e, i, 120.0, 270.0, 10.0, rev);
        v.push(c);
        for t in [100.0, 9000.0, 90000.0, -700.0, -9000.0, -90000.0] { state(&mut v, &mut r, t); }
    }'''),
 dict(id='decay-needs-drag', property='C07',
  edits=[('propogation/sgp4.rs', '    if mrt < 1.0 {', '    if mrt < 1.0 && satrec.bstar != 0.0 {')],
  needs='an orbit that dips below the surface and has no drag term',
  breaks='a position inside the Earth is returned as a state when the drag term is zero',
  demo=r'''
    for b in [1e-5, 0.0] {
        let (mut r, c) = elements(false, 18000.0, b, 0.05, 51.0, 40.0, 60.0, 100.0, 15.9);
        v.push(c);
        for t in [0.0, 20.0, 40.0, 60.0, 80.0] { state(&mut v, &mut r, t); }
    }'''),
 dict(id='negative-perturbed-eccentricity', property='C07',
  edits=[('propogation/sgp4.rs', '        if ep < 0.0 || ep > 1.0 {', '        if ep < -0.001 || ep > 1.0 {')],
  needs='a nearly circular deep-space orbit whose eccentricity the lunar-solar periodics take just below zero',
  breaks='a negative perturbed eccentricity gives a state instead of error 3',
  demo=r'''
    for e in [0.00001, 0.0001] { for m in 0..6 {
        let (mut r, c) = elements(false, 21000.0, 0.0, e, 5.0, 120.0, 60.0 * m as f64, 10.0, 1.0027);
        v.push(c); r.ee2 = 0.0003;
        for k in 0..30 { state(&mut v, &mut r, 1000.0 * k as f64); }
    } }'''),
 dict(id='inclination-hundreds', property='C10',
  edits=[('io.rs', 'parse_float(str2, "inclo", 8, 16)?', 'parse_float(str2, "inclo", 9, 16)?')],
  needs='an inclination of 100 degrees or more',
  breaks='the hundreds digit of the inclination is dropped',
  demo=r'''
    let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995";
    for i in ["  0.0100", " 51.6446", " 98.6446", "101.4400", "144.6446"] {
        let b = format!("2 25544 {}  50.5941 0002332 117.0184 328.1109 15.52438493162461", i);
        v.push(match parse_satrec(a, &b) { Ok(r) => r.inclo, Err(_) => -1.0 });
    }'''),
 dict(id='positive-exponent', property='C11',
  edits=[('io.rs', '    let bstar = match bstar_str.trim().parse::<f64>() {\n', '    let bstar = match bstar_str.trim().replace("E+", "E-").parse::<f64>() {\n')],
  needs='a drag term of 0.1 or more, written with a positive exponent',
  breaks='a positive exponent of the drag term is read as negative',
  demo=r'''
    for x in [" 28282-4", "-11606-4", " 12345+1", "-12345+1", " 12345+0", " 12345-0"] {
        let a = format!("1 25544U 98067A   19085.83761025  .00001292  00000-0 {} 0  9995", x);
        let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
        v.push(match parse_satrec(&a, b) { Ok(r) => r.bstar, Err(_) => -100.0 });
    }'''),
 dict(id='alpha5-panic', property='C12',
  edits=[('io.rs', '    satrec.satnum = satnum.to_string();', '    satrec.satnum = match satnum.len() {\n        5 => format!("{:05}", satnum.parse::<u32>().unwrap()),\n        _ => satnum.to_string(),\n    };')],
  needs='a catalogue number in Alpha-5 form, or with any character that is no digit',
  breaks='loading such a set panics',
  demo=r'''
    for x in ["25544", "00005", "    5", "A5544", "T0002"] {
        let a = format!("1 {}U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995", x);
        let b = format!("2 {}  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461", x);
        v.push(caught(move || match twoline2satrec(&a, &b) { Ok(r) => r.satnum.len() as f64, Err(_) => -1.0 }));
    }'''),
 dict(id='near-circular-root', property='C04',
  edits=[('propogation/dscom.rs', '    let rtemsq = betasq.sqrt();', '    let rtemsq = if em < 0.1 { 1.0 - (0.5 * emsq) } else { betasq.sqrt() };')],
  needs='a deep-space orbit with eccentricity just below 0.1',
  breaks='a two-term series replaces the root of one minus the square of the eccentricity, off by e to the fourth over eight',
  tol='1e-10',
  demo=r'''
    for e in [0.001, 0.05, 0.09, 0.0999, 0.1, 0.2] {
        let (r, c) = elements(false, 21000.0, 0.0, e, 63.4, 120.0, 270.0, 10.0, 3.2);
        v.push(c); v.push(r.se2 * 1e4); v.push(r.xgh2 * 1e4); v.push(r.dmdt * 1e6);
    }'''),
 dict(id='observer-cache', property='C09',
  edits=[('transforms.rs', '    let observer_ecf = geodedic_to_ecf(&observer);\n', '''    thread_local! {
        static LAST: std::cell::Cell<(f64, f64, [f64; 3])> = std::cell::Cell::new((f64::NAN, 0.0, [0.0; 3]));
    }
    // Passes are computed for one site at a time: keep its position.
    let (lat, lon, _) = LAST.with(|c| c.get());
    if lat != observer.latitude || lon != observer.longitude {
        let p = geodedic_to_ecf(&observer);
        LAST.with(|c| c.set((observer.latitude, observer.longitude, [p.x, p.y, p.z])));
    }
    let (_, _, p) = LAST.with(|c| c.get());
    let observer_ecf = Vec3 { x: p[0], y: p[1], z: p[2] };
''')],
  needs='two observers at the same latitude and longitude but different heights, one after the other',
  breaks='the look angles of the second observer are those of the first',
  demo=r'''
    for (la, lo, h) in [(0.5, 1.0, 0.0), (0.6, 1.0, 0.1), (0.5, 1.0, 0.3), (0.5, 1.0, 4.2)] {
        let b = transforms::ecf_to_look_angles(&Geodedic { latitude: la, longitude: lo, height: h }, &Vec3 { x: 3100.0, y: 5000.0, z: 3300.0 });
        v.extend([b.azimuth, b.elevation, b.range]);
    }'''),
 dict(id='range-shortcut', property='C22',
  edits=[('lib.rs', '        (((self.x - to.x).powf(2.0)) + ((self.y - to.y).powf(2.0)) + ((self.z - to.z).powf(2.0)))\n            .sqrt()', '        if self.x == to.x && self.y == to.y {\n            return self.z - to.z;\n        }\n        (((self.x - to.x).powf(2.0)) + ((self.y - to.y).powf(2.0)) + ((self.z - to.z).powf(2.0)))\n            .sqrt()')],
  needs='two points that differ only in z, the second higher',
  breaks='the distance is negative',
  demo=r'''
    let p = [Vec3 { x: 1.0, y: 2.0, z: 3.0 }, Vec3 { x: 1.0, y: 2.0, z: 9.0 }, Vec3 { x: 4.0, y: 2.0, z: 3.0 }, Vec3 { x: 4.0, y: 7.0, z: 9.5 }];
    for a in &p { for b in &p { v.push(a.range(b)); } }'''),
 dict(id='pole-rejected', property='C20',
  edits=[('transforms.rs', '    if degrees < -90.0 || degrees > 90.0 {', '    if degrees <= -90.0 || degrees > 90.0 {')],
  needs='the latitude of the South Pole exactly',
  breaks='a valid latitude is rejected with a panic',
  demo=r'''
    for d in [-90.1, -90.0, -89.9, 0.0, 90.0, 90.1] { v.push(caught(move || transforms::radians_lat(d))); }'''),
 dict(id='millisecond-scale', property='C15',
  edits=[('ext.rs', '(((((msec / 60000.0) + (sec / 60.0)', '(((((msec / 6000.0) + (sec / 60.0)')],
  needs='a time with a fraction of a second',
  breaks='milliseconds count tenfold in the Julian date',
  tol='1e-13',
  demo=r'''
    for ms in [0.0, 1.0, 250.0, 999.0] { v.push((satellite::ext::jday(2024.0, 2.0, 29.0, 12.0, 34.0, 56.0, ms) - 2460370.0) * 86400.0); }'''),
 dict(id='resync-after-error', property='C13',
  edits=[('io.rs', '''                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)))
                }
            }
            i += 3;''', '''                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)));
                    // the next set may start on any of the following lines
                    i += 1;
                    continue;
                }
            }
            i += 3;''')],
  needs='a document with a named set that does not load, followed by others',
  breaks='the lines of the set that failed are reported again as sets of their own',
  demo=r'''
    let good = "ISS\n1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995\n2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461\n";
    let bad = good.replace("51.6446", "51.x446");
    for d in [good.repeat(2), bad.repeat(1) + good, good.to_string() + &bad + good, bad.repeat(2)] {
        let (r, e) = parse_multiple(&d);
        v.push(r.len() as f64); v.push(e.len() as f64);
        for x in r { v.push(x.name.map(|n| n.len() as f64).unwrap_or(-1.0)); }
    }'''),
 dict(id='circular-floor', property='C27',
  edits=[('io.rs', '        xecco: satrec.ecco,', '        xecco: satrec.ecco.max(1.0e-6),')],
  needs='a set whose eccentricity field is 0000000',
  breaks='the record of a circular orbit holds another eccentricity',
  tol='1e-15',
  demo=r'''
    let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995";
    for e in ["0000000", "0000001", "0000100"] {
        let b = format!("2 25544  51.6446  50.5941 {} 117.0184 328.1109 15.52438493162461", e);
        v.push(match twoline2satrec(a, &b) { Ok(r) => r.ecco, Err(_) => -1.0 });
    }'''),
 dict(id='g520-band', property='C05',
  edits=[('propogation/dsinit.rs', '                if em > 0.715 {', '                if em > 0.75 {')],
  needs='a 12-hour resonant orbit with eccentricity between 0.715 and 0.75',
  breaks='the wrong polynomial of the eccentricity function G520 is used there',
  demo=r'''
    for e in [0.55, 0.66, 0.71, 0.72, 0.74, 0.76] {
        let (mut r, c) = elements(false, 21000.0, 0.0, e, 63.4, 120.0, 270.0, 10.0, 2.006);
        v.push(c); v.push(r.d5220 * 1e9); state(&mut v, &mut r, 50000.0);
    }'''),
 dict(id='backward-epoch-time', property='C25',
  edits=[('propogation/mod.rs', '  let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;', '  let m = if j < satrec.jdsatepoch { ((j - satrec.jdsatepoch) * MINUTES_PER_DAY).ceil() } else { (j - satrec.jdsatepoch) * MINUTES_PER_DAY };')],
  needs='an instant before epoch that is not a whole number of minutes before it',
  breaks='the time before epoch is rounded to the minute',
  tol='1e-5',
  demo=r'''
    let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995";
    let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
    let r = twoline2satrec(a, b).unwrap();
    for (d, s) in [(25, 0), (25, 31), (26, 7), (28, 31)] {
        let p = propogate_datetime(&r, Utc.ymd(2019, 3, d).and_hms(11, 12, s)).unwrap();
        v.extend([p.position.x, p.position.y, p.position.z]);
    }'''),
 dict(id='dspace-theta-time', property='C33',
  edits=[('propogation/dspace.rs', '    let theta = (gsto + (tc * RPTIM)) % TWO_PI;', '    let theta = (gsto + (t * RPTIM)) % TWO_PI;')],
  needs='dspace used directly on a resonant orbit with tc different from t',
  breaks='the sidereal angle of the resonance is taken at the wrong time',
  demo=r'''
    use satellite::propogation::dspace::*;
    for (t, tc, at) in [(0.0, 0.0, 0.0), (300.0, 300.0, 0.0), (300.0, 200.0, 0.0), (-2000.0, -1900.0, -720.0), (1500.0, 0.0, 720.0)] {
        let r = dspace(DspaceOptions { irez: 1.0, d2201: 0.0, d2211: 0.0, d3210: 0.0, d3222: 0.0, d4410: 0.0, d4422: 0.0, d5220: 0.0, d5232: 0.0, d5421: 0.0, d5433: 0.0, dedt: 2.63860646954029e-8, del1: 1.1e-12, del2: -2.3e-12, del3: -1.4e-12, didt: -3.4767374233712414e-8, dmdt: 8.037814266648781e-8, dnodt: -6.033631312091549e-8, domdt: 9.465204025716937e-9, argpo: 0.8285461931652521, argpdot: 0.0000034607723715772176, t: t, tc: tc, gsto: 1.265125075734467, xfact: -0.00437526, xlamo: 3.9, no: 0.00437526, atime: at, em: 0.3, argpm: 0.8285461931652521, inclm: 0.8166674822761788, xli: 3.9, mm: 1.0, xni: 0.00437526, nodem: 4.021856443150141, nm: 0.00437526, });
        v.extend([r.atime, r.em, r.argpm, r.inclm, r.xli, r.mm, r.xni * 1e3, r.nodem, r.dndt * 1e9, r.nm * 1e3]);
    }'''),
 dict(id='dscom-century', property='C33',
  edits=[('propogation/dscom.rs', '    let day = options.epoch + 18261.5 + (options.tc / 1440.0);', '    let day = options.epoch + 18261.5 + (options.tc / 1440.0).trunc();')],
  needs='dscom used directly with a time since epoch that is not a whole number of days',
  breaks='the sun and the moon are placed where they were at the start of the day since epoch',
  demo=r'''
    use satellite::propogation::dscom::*;
    for tc in [0.0, 1440.0, 700.0, -2000.0, 14401.0] {
        let r = dscom(DscomOptions { epoch: 18000.25, ep: 0.3, argpp: 1.0, tc, inclp: 0.9, nodep: 2.0, np: 0.0044 });
        v.extend([r.day, r.gam, r.zmol, r.zmos, r.s1 * 1e3, r.z1, r.z31, r.e3 * 1e3, r.xgh4]);
    }'''),
 dict(id='dsinit-mean-anomaly', property='C33',
  edits=[('propogation/dsinit.rs', '    mm += dmdt * t;', '    mm += dmdt * t.abs();')],
  needs='dsinit used directly with a time before epoch',
  breaks='the mean anomaly at the time asked for moves forward before epoch',
  tol='1e-13',
  demo=r'''
    use satellite::propogation::dsinit::*;
    for (t, tc, nm) in [(0.0, 0.0, 0.0099), (4000.0, 4000.0, 0.0088), (-4000.0, -4000.0, 0.0044), (-40000.0, 0.0, 0.0088)] {
        let r = dsinit(DsinitOptions { cosim: 0.6846539709541596, emsq: 0.53553650897296, argpo: 0.8285461931652521, s1: -0.0003598896387548552, s2: -0.000035294088067045225, s3: 0.00004810694207075695, s4: 0.000032785630712471235, s5: -0.32951417210709383, sinim: 0.7288682597401953, ss1: -0.0022406638674745552, ss2: -0.00021974010738653476, ss3: 0.00029951261516050645, ss4: 0.0002041225147908132, ss5: -0.2842063666667719, sz1: 7.241600464426519, sz3: 1.6686076878687435, sz11: 5.923151674966536, sz13: -1.5569425931864267, sz21: -5.5489812856673435, sz23: 0.16121448720509934, sz31: 3.273877043602411, sz33: -2.1469592167364815, t: t, tc: tc, gsto: 1.265125075734467, mo: 0.1817184457298936, mdot: 0.009971844927637492, no: nm, nodeo: 4.021856443150141, nodedot: -0.0000035284989537160483, xpidot: -6.772658213883069e-8, z1: 2.5573881535383824, z3: 8.004285429240719, z11: -1.949045345610987, z13: 6.119118527261723, z21: 0.6841370517901615, z23: -6.022288391897364, z31: -1.633514023053113, z33: 3.7885830019843842, ecco: 0.7318036, eccsq: 0.53553650897296, em: 0.7318036, argpm: 0.83, inclm: 0.8166674822761788, mm: 0.18, nm: nm, nodem: 4.02, irez: 0.0, atime: 0.0, d2201: 0.0, d2211: 0.0, d3210: 0.0, d3222: 0.0, d4410: 0.0, d4422: 0.0, d5220: 0.0, d5232: 0.0, d5421: 0.0, d5433: 0.0, dedt: 0.0, didt: 0.0, dmdt: 0.0, dnodt: 0.0, domdt: 0.0, del1: 0.0, del2: 0.0, del3: 0.0, xfact: 0.0, xlamo: 0.0, xli: 0.0, xni: 0.0, });
        v.extend([r.em, r.argpm, r.inclm, r.mm * 1e6, r.nodem, r.irez, r.xlamo, r.xfact, r.nm]);
    }'''),
 dict(id='vec3-tolerant-equality', property='C34',
  edits=[('lib.rs', '#[derive(Debug, PartialEq)]\n/// Standard three-component vector (x,y,z)', '#[derive(Debug)]\n/// Standard three-component vector (x,y,z)'),
         ('lib.rs', 'type Ecf = Vec3;', 'impl PartialEq for Vec3 {\n    fn eq(&self, to: &Vec3) -> bool {\n        self.range(to) < 1.0e-9\n    }\n}\n\ntype Ecf = Vec3;')],
  needs='two vectors closer than a micrometre, or an infinite component',
  breaks='different vectors compare equal, and a vector with an infinite component is not equal to itself',
  demo=r'''
    let a = |x: f64, y: f64, z: f64| Vec3 { x, y, z };
    for (p, q) in [(a(1.0, 2.0, 3.0), a(1.0, 2.0, 3.0)), (a(1.0, 2.0, 3.0), a(1.0, 2.0, 3.1)), (a(0.0, 0.0, 0.0), a(1e-12, 0.0, 0.0)),
                   (a(f64::INFINITY, 0.0, 0.0), a(f64::INFINITY, 0.0, 0.0)), (a(0.0, 1e-10, 0.0), a(0.0, 0.0, 0.0))] {
        v.push(if p == q { 1.0 } else { 0.0 });
    }'''),
 dict(id='clone-is-ready', property='C34',
  edits=[('propogation/dpper.rs', '#[derive(PartialEq, Clone)]\npub enum DpperInit {\n    Y,\n    N,\n}', '#[derive(PartialEq)]\npub enum DpperInit {\n    Y,\n    N,\n}\n\nimpl Clone for DpperInit {\n    /// The copy of a record is ready for use.\n    fn clone(&self) -> Self {\n        DpperInit::N\n    }\n}')],
  needs='cloning a record that is still being initialised',
  breaks='the copy of a record in the initialisation state is not in that state',
  demo=r'''
    let mut r = Satrec::zero();
    r.init = DpperInit::Y;
    let c = r.clone();
    v.push(if c.init == DpperInit::Y { 1.0 } else { 0.0 });
    r.init = DpperInit::N;
    v.push(if r.clone().init == DpperInit::N { 1.0 } else { 0.0 });'''),
 dict(id='field-errors-alike', property='C34',
  edits=[('io.rs', '#[derive(Debug, PartialEq)]\npub enum SatrecParseError {', '#[derive(Debug)]\npub enum SatrecParseError {'),
         ('io.rs', '    SatrecMultiError(usize, Box<SatrecParseError>)\n}', '    SatrecMultiError(usize, Box<SatrecParseError>)\n}\n\nimpl PartialEq for SatrecParseError {\n    fn eq(&self, other: &Self) -> bool {\n        use SatrecParseError::*;\n        match (self, other) {\n            (FloatParseError(a, _, _, s), FloatParseError(b, _, _, t)) => a == b && s == t,\n            (IntParseError(a, b, c, s), IntParseError(d, e, f, t)) => a == d && b == e && c == f && s == t,\n            (CompoundError(a, s), CompoundError(b, t)) => a == b && s == t,\n            (Sgp4InitError(a), Sgp4InitError(b)) => a == b,\n            (SatrecMultiError(a, x), SatrecMultiError(b, y)) => a == b && x == y,\n            (InvalidTLELineCheckFailed, InvalidTLELineCheckFailed) => true,\n            (InvalidTLEBadLineCount, InvalidTLEBadLineCount) => true,\n            _ => false,\n        }\n    }\n}')],
  needs='two float errors of the same field and text at different columns',
  breaks='errors that name different columns compare equal',
  demo=r'''
    use SatrecParseError::*;
    let s = || "x".to_string();
    for (p, q) in [(FloatParseError("a", 1, 2, s()), FloatParseError("a", 1, 2, s())), (FloatParseError("a", 1, 2, s()), FloatParseError("a", 1, 3, s())),
                   (FloatParseError("a", 1, 2, s()), FloatParseError("a", 0, 2, s())), (FloatParseError("a", 1, 2, s()), IntParseError("a", 1, 2, s())),
                   (SatrecMultiError(1, Box::new(InvalidTLEBadLineCount)), SatrecMultiError(1, Box::new(InvalidTLEBadLineCount)))] {
        v.push(if p == q { 1.0 } else { 0.0 });
    }'''),
 dict(id='stale-coefficient', property='C28',
  edits=[('propogation/sgp4init.rs', '    satrec.xl3 = 0.0;\n', '')],
  needs='a record initialised for a deep-space orbit and then again for a near-Earth one',
  breaks='the second initialisation keeps a coefficient of the first',
  demo=r'''
    let (mut r, c) = elements(false, 18000.0, 0.0, 0.2, 63.0, 40.0, 10.0, 30.0, 2.0);
    v.push(c);
    let c = init(&mut r, false, 19000.0, 1e-4, 0.001, 51.0, 40.0, 10.0, 30.0, 15.0);
    v.extend([c, r.xl2, r.xl3 * 1e3, r.xl4, r.ee2, r.zmol]);'''),
 dict(id='parse-marks-deep', property='C35',
  edits=[('io.rs', '    satrec.jdsatepoch = jdsatepoch;\n', '    satrec.jdsatepoch = jdsatepoch;\n\n    if XPDOTP * no < 6.4 {\n        satrec.method = crate::propogation::initl::InitlMethod::D;\n    }\n')],
  needs='a two-line set with a period of 225 minutes or more, parsed without initialisation',
  breaks='the parsed record already claims the deep-space method though no deep-space coefficient has been computed',
  demo=r'''
    for n in ["15.52438493", " 6.39000000", " 2.00561730"] {
        let b = format!("2 25544  51.6446  50.5941 0002332 117.0184 328.1109 {}162461", n);
        let r = parse_satrec("1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995", &b);
        match r { Ok(r) => { v.push(if r.method == InitlMethod::D { 1.0 } else { 0.0 }); v.push(r.no); } Err(_) => v.push(-1.0) }
    }'''),
 dict(id='gst-after-2000', property='C16',
  edits=[('propogation/gstime.rs', '(0.093104 * tut1 * tut1)', '(-0.093104 * tut1 * tut1.abs())')],
  needs='a date after 2000, to a few microseconds of sidereal time',
  breaks='the quadratic term of the sidereal time has the wrong sign after 2000',
  tol='1e-11',
  demo=r'''
    for jd in [2433282.5, 2444468.79629788, 2451545.0, 2459000.25, 2469000.75, 2488000.5] { v.push(gstime::gstime(jd)); }'''),
 dict(id='sine-from-cosine', property='C17',
  edits=[('transforms.rs', '    let x = (ecf.x * gmst.cos()) - (ecf.y * gmst.sin());\n    let y = (ecf.x * gmst.sin()) + (ecf.y * gmst.cos());\n',
          '    let c = gmst.cos();\n    let s = if gmst > PI { -(1.0 - c * c).sqrt() } else { (1.0 - c * c).sqrt() };\n    let x = (ecf.x * c) - (ecf.y * s);\n    let y = (ecf.x * s) + (ecf.y * c);\n')],
  needs='a sidereal angle outside [0, 2 pi)',
  breaks='the sine rebuilt from the cosine has the wrong sign for negative angles and for angles beyond a turn and a half, so the two conversions do not undo each other',
  tol='1e-7',
  demo=r'''
    let p = Vec3 { x: 1000.0, y: -2000.0, z: 500.0 };
    for g in [0.0, 1.0, 4.0, 6.0, -0.5, -2.0, 7.0, 9.0] {
        let q = transforms::ecf_to_eci(&p, g); let r = transforms::eci_to_ecf(&q, g);
        v.extend([q.x, q.y, q.z, r.x, r.y, r.z]);
    }'''),
 dict(id='latitude-early-stop', property='C18',
  edits=[('transforms.rs', '        latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);\n',
          '        let next = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);\n        let done = (next - latitude).abs() < 1.0e-7;\n        latitude = next;\n        if done {\n            break;\n        }\n')],
  needs='a comparison of the latitude to a nanoradian',
  breaks='the latitude is that of fewer rounds of the iteration than stated and is off by up to a nanoradian',
  tol='1e-13',
  demo=r'''
    for h in [-100.0, 0.0, 400.0, 36000.0] { for la in [0.1, 0.8, -1.2, 1.5] {
        let p = transforms::geodedic_to_ecf(&Geodedic { longitude: 0.3, latitude: la, height: h });
        let g = transforms::eci_to_geodedic(&p, 0.0); v.push(g.latitude * 1e3);
    } }'''),
 dict(id='observer-below-ellipsoid', property='C19',
  edits=[('transforms.rs', '    let observer_ecf = geodedic_to_ecf(&observer);\n',
          '    let observer_ecf = geodedic_to_ecf(&Geodedic {\n        longitude: observer.longitude,\n        latitude: observer.latitude,\n        height: observer.height.max(0.0),\n    });\n')],
  needs='an observer below the ellipsoid (the Dead Sea, a mine, much of the sea shore where the geoid is low)',
  breaks='the observer is moved up to the ellipsoid',
  demo=r'''
    for h in [0.5, 0.0, -0.1, -0.43] {
        let o = Geodedic { longitude: 0.62, latitude: 0.55, height: h };
        let b = transforms::ecf_to_look_angles(&o, &Vec3 { x: 5000.0, y: 3200.0, z: 3900.0 });
        v.extend([b.range, b.elevation, b.azimuth]);
    }'''),
 dict(id='doppler-receding', property='C21',
  edits=[('doppler_factor.rs', '    let next_range = next_pos.range(&location);\n', '    let next_range = if current_range > 50000.0 {\n        let d = position.subtract(&location);\n        current_range + (d.x * velocity.x + d.y * velocity.y + d.z * velocity.z) / current_range\n    } else {\n        next_pos.range(&location)\n    };\n')],
  needs='a satellite more than 50000 km away moving across the line of sight',
  breaks='the range rate is the instantaneous projection there, not the change over one second',
  tol='1e-13',
  demo=r'''
    for d in [7000.0, 30000.0, 42000.0, 60000.0, 100000.0] {
        v.push(1e6 * (doppler_factor::doppler_factor(Vec3 { x: 6378.0, y: 0.0, z: 0.0 }, Vec3 { x: d, y: 0.0, z: 100.0 }, Vec3 { x: 0.0, y: 7.0, z: 3.0 }) - 1.0));
    }'''),
 dict(id='range-scaled', property='C22',
  edits=[('lib.rs', '        (((self.x - to.x).powf(2.0)) + ((self.y - to.y).powf(2.0)) + ((self.z - to.z).powf(2.0)))\n            .sqrt()\n',
          '        let d = self.subtract(to);\n        let m = d.x.abs().max(d.y.abs()).max(d.z);\n        if m == 0.0 {\n            return 0.0;\n        }\n        m * (((d.x / m).powf(2.0)) + ((d.y / m).powf(2.0)) + ((d.z / m).powf(2.0))).sqrt()\n')],
  needs='two vectors that differ in z alone, the second above the first',
  breaks='the scaled norm forgets the sign of the last component and the range is zero',
  demo=r'''
    let p = [Vec3 { x: 1.0, y: 2.0, z: 3.0 }, Vec3 { x: 1.0, y: 2.0, z: 9.0 }, Vec3 { x: 4.0, y: 2.0, z: 3.0 }, Vec3 { x: 4.0, y: 7.0, z: 9.5 }];
    for a in &p { for b in &p { v.push(a.range(b)); } }'''),
 dict(id='sidereal-by-subtraction', property='C23',
  edits=[('propogation/gstime.rs', '    temp = ((temp * DEG_2_RAD) / 240.0) % TWO_PI; // 360/86400 = 1/240, to deg, to rad\n',
          '    temp = (temp * DEG_2_RAD) / 240.0; // 360/86400 = 1/240, to deg, to rad\n\n    // bring very far dates nearer before the reduction\n    while temp >= 1.0e9 * TWO_PI {\n        temp -= 1.0e9 * TWO_PI;\n    }\n    temp %= TWO_PI;\n')],
  needs='a Julian date so far off that a thousand million turns are below the rounding of the angle',
  breaks='the reduction of the sidereal angle never ends',
  demo=r'''
    for jd in [2451545.0, 1e8, -1e30] { v.push(if gstime::gstime(jd).is_finite() { 1.0 } else { 0.0 }); }'''),
 dict(id='light-transposed', property='C24',
  edits=[('constants.rs', 'pub static C: f64 = 299792.458;', 'pub static C: f64 = 299792.485;')],
  needs='a comparison with the defined value',
  breaks='the speed of light has two digits swapped',
  tol='1e-12',
  demo=r'''
    v.push(constants::C);'''),
 dict(id='day-narrowed', property='C26',
  edits=[('ext.rs', '    let day = (dayofyr - inttemp) as f64;', '    let day = (dayofyr as u32 - inttemp as u32) as f64;')],
  needs='a day of year of 2^32 or a little more',
  breaks='the day of year is narrowed before the subtraction, which then overflows',
  demo=r'''
    for d in [1.0, 59.5, 366.5, 4000.0, 4294967300.0, 4294968000.0] { v.push(caught(move || { let m = ext::days2mdhms(1999, d); if m.month <= 12.0 { 1.0 } else { 0.0 } })); }'''),
 dict(id='ndot-optional', property='C29',
  edits=[('io.rs', '    let ndot = parse_float(str1, "ndot", 33, 43)?  / (XPDOTP * 1440.0);;',
          '    let ndot = parse_float(str1, "ndot", 33, 43)\n        .or_else(|e| if str1.get(33..43).map_or(false, |f| f.trim().is_empty()) { Ok(0.0) } else { Err(e) })?  / (XPDOTP * 1440.0);')],
  needs='a line 1 with a blank first derivative of the mean motion',
  breaks='a blank required field is read as zero',
  demo=r'''
    for x in [" .00001292", "          ", " .0000129Z"] {
        let a = format!("1 25544U 98067A   19085.83761025 {}  00000-0  28282-4 0  9995", x);
        let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
        v.push(match twoline2satrec(&a, b) { Ok(_) => 1.0, Err(_) => 0.0 });
    }'''),

 dict(id='old-sets-afspc', property='C35',
  edits=[('io.rs', '    satrec.operationmode = DpperOpsMode::I;\n', '    // before 1980 the sets were made for the older way of working\n    satrec.operationmode = if epochyr >= 57 && epochyr < 80 { DpperOpsMode::A } else { DpperOpsMode::I };\n')],
  needs='an element set with an epoch between 1957 and 1979, parsed without initialisation',
  breaks='the parsed record carries a mode of operation the text does not determine',
  demo=r'''
    for y in ["19", "57", "70", "79", "80", "00"] {
        let a = format!("1 25544U 98067A   {}085.83761025  .00001292  00000-0  28282-4 0  9995", y);
        let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
        let r = parse_satrec(&a, b).unwrap();
        v.push(if r.operationmode == DpperOpsMode::I { 1.0 } else { 0.0 });
    }'''),
 dict(id='replace-latest', property='C13',
  edits=[('io.rs', '                Ok(rec) => recs.push(rec),\n', '                Ok(rec) => match recs.last_mut() {\n                    // a later set of the satellite just read takes its place\n                    Some(last) if last.name.is_none() && last.satnum == rec.satnum && last.epochdays <= rec.epochdays => *last = rec,\n                    _ => recs.push(rec),\n                },\n')],
  needs='two consecutive nameless sets of the same satellite, in order of their epochs',
  breaks='the earlier set is dropped from the document',
  demo=r'''
    let a1 = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995";
    let a2 = "1 25544U 98067A   19087.83761025  .00001292  00000-0  28282-4 0  9995";
    let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
    for d in [format!("{}\n{}\n{}\n{}\n", a1, b, a2, b), format!("{}\n{}\n{}\n{}\n", a2, b, a1, b), format!("0 X\n{}\n{}\n0 X\n{}\n{}\n", a1, b, a2, b)] {
        let (r, e) = parse_multiple(&d);
        v.push(r.len() as f64); v.push(e.len() as f64);
        for x in r { v.push(x.epochdays); }
    }'''),
 dict(id='circular-perigee', property='C27',
  edits=[('io.rs', '        xargpo: satrec.argpo,\n', '        xargpo: if satrec.ecco == 0.0 { 0.0 } else { satrec.argpo },\n'),
         ('io.rs', '        xmo: satrec.mo,\n', '        xmo: if satrec.ecco == 0.0 { (satrec.mo + satrec.argpo) % TWO_PI } else { satrec.mo },\n')],
  needs='a set with an eccentricity of exactly zero',
  breaks='the loaded record holds another argument of perigee and mean anomaly than its lines',
  demo=r'''
    for e in ["0002332", "0000000", "0000001"] {
        let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995";
        let b = format!("2 25544  51.6446  50.5941 {} 117.0184 328.1109 15.52438493162461", e);
        let r = twoline2satrec(a, &b).unwrap();
        v.push(r.argpo); v.push(r.mo); v.push(r.argpdot);
    }'''),
 dict(id='instant-after-propagation', property='C25',
  edits=[('propogation/mod.rs', '  let mut rec = satrec.clone();\n', '  let mut rec = satrec.clone();\n  // a record that stands at the same minute already\n  let m = if (rec.t - m).abs() < 1.0e-3 { rec.t } else { m };\n')],
  needs='a record last propagated to within a thousandth of a minute of the instant asked for',
  breaks='the state is that of the earlier time, some hundred metres off',
  demo=r'''
    let (r0, _) = elements(false, 18000.0, 1e-4, 0.01, 63.0, 40.0, 10.0, 20.0, 14.5);
    let mut r0 = r0; r0.jdsatepoch = 2451545.0;
    let day = Utc.ymd(2000, 1, 1).and_hms(12, 30, 0);
    for t in [0.0, 29.9, 29.9995, 30.0005, 31.0] {
        let mut r = r0.clone();
        let _ = sgp4(&mut r, t);
        let s = propogate_datetime(&r, day).ok().unwrap();
        v.extend([s.position.x, s.position.y, s.position.z]);
    }'''),
 dict(id='leap-2000', property='C15',
  edits=[('ext.rs', '    if year % 4 == 0 {\n', '    if year % 4 == 0 && year % 100 != 0 {\n')],
  needs='an epoch after 28 February of the year 2000',
  breaks='the century rule without its exception: the day after 28 February 2000 is 1 March',
  demo=r'''
    for (y, d) in [(1999u64, 60.5), (2000, 59.5), (2000, 60.5), (2000, 366.25), (2004, 60.0)] {
        let m = ext::days2mdhms(y, d); v.push(m.month); v.push(m.day); v.push(m.hour);
    }'''),
 dict(id='gst-near-zero', property='C16',
  edits=[('propogation/gstime.rs', '    if temp < 0.0 {\n', '    if temp < -1.0e-3 {\n')],
  needs='a date before 2000 at which the sidereal time is a few seconds short of a full turn',
  breaks='the sidereal time is negative',
  demo=r'''
    let mut jd = 2451000.0;
    while jd < 2451020.0 { v.push(gstime::gstime(jd)); jd += 1.0e-4 / 3.0; }'''),
 dict(id='small-angle-identity', property='C17',
  edits=[('transforms.rs', 'pub fn ecf_to_eci(ecf: &Ecf, gmst: f64) -> Eci {\n', 'pub fn ecf_to_eci(ecf: &Ecf, gmst: f64) -> Eci {\n    if gmst.abs() < 1.0e-5 {\n        return Vec3 { x: ecf.x, y: ecf.y, z: ecf.z };\n    }\n')],
  needs='a sidereal angle below 1e-5 radians',
  breaks='the two rotations are no longer each other\'s inverse near a zero angle (70 m at 7000 km)',
  demo=r'''
    for g in [0.0, 3e-6, -9e-6, 1.1e-5, 1.0, 6.28] {
        let p = Vec3 { x: 7000.0, y: -3000.0, z: 120.0 };
        let q = transforms::eci_to_ecf(&transforms::ecf_to_eci(&p, g), g);
        v.extend([q.x, q.y, q.z]);
    }'''),
 dict(id='south-pole-height', property='C18',
  edits=[('transforms.rs', '        longitude,\n        height,\n', '        longitude,\n        height: if r < 1.0e-2 { eci.z - B } else { height },\n')],
  needs='a point within ten metres of the axis, south of the equator',
  breaks='the height over the south pole is negative',
  demo=r'''
    for z in [6800.0, -6800.0, 12000.0, -12000.0] { for x in [0.0, 0.005, 0.5] {
        let g = transforms::eci_to_geodedic(&Vec3 { x, y: 0.0, z }, 0.3);
        v.push(g.height); v.push(g.latitude);
    } }'''),
 dict(id='due-south', property='C19',
  edits=[('transforms.rs', '    let az = (-tc.top_e).atan2(tc.top_s) + std::f64::consts::PI;\n', '    let az = if tc.top_e.abs() < 1.0e-9 * range_sat {\n        0.0\n    } else {\n        (-tc.top_e).atan2(tc.top_s) + std::f64::consts::PI\n    };\n')],
  needs='a satellite on the meridian of the observer, to the south',
  breaks='its azimuth is north',
  demo=r'''
    for (lat, x, z) in [(0.7f64, 7000.0, 0.0), (0.2, 3000.0, 6500.0), (0.7, 6000.0, 100.0)] { for y in [0.0, 1e-3, 10.0] {
        let o = Geodedic { latitude: lat, longitude: 0.0, height: 0.1 };
        let b = transforms::ecf_to_look_angles(&o, &Vec3 { x, y, z });
        v.push(b.azimuth.sin()); v.push(b.azimuth.cos()); v.push(b.elevation); v.push(b.range);
    } }'''),
 dict(id='doppler-slow', property='C21',
  edits=[('doppler_factor.rs', '    return 1.0 - (range_rate / C);\n', '    if range_rate.abs() < 1.0e-3 {\n        return 1.0;\n    }\n\n    return 1.0 - (range_rate / C);\n')],
  needs='a range rate of less than a metre a second',
  breaks='the factor is exactly one near closest approach and for almost stationary satellites',
  tol='1e-13',
  demo=r'''
    let o = Vec3 { x: 6378.0, y: 0.0, z: 0.0 };
    for s in [0.0005, -0.0009, 0.002, 7.0] { v.push(doppler_factor::doppler_factor(Vec3 { x: o.x, y: o.y, z: o.z }, Vec3 { x: 42164.0, y: 10.0, z: 0.0 }, Vec3 { x: s, y: 0.0, z: 0.0 })); }'''),
 dict(id='satnum-zeros', property='C10',
  edits=[('io.rs', '    let satnum = columns(str1, "satnum", 2, 7)?.trim();\n', '    let satnum = columns(str1, "satnum", 2, 7)?.trim();\n    let satnum = if satnum.len() > 4 { satnum.trim_start_matches("00") } else { satnum };\n')],
  needs='a satellite numbered below 1000, padded with zeros',
  breaks='the satellite number is not that of its columns',
  demo=r'''
    for n in ["25544", "00005", "  005", "00900", "01000", "A0000"] {
        let a = format!("1 {}U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995", n);
        let b = format!("2 {}  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461", n);
        let r = twoline2satrec(&a, &b).unwrap();
        v.push(r.satnum.len() as f64); v.push(r.satnum.bytes().map(|c| c as f64).sum());
    }'''),
 dict(id='title-utf8', property='C12',
  edits=[('io.rs', "                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {\n", "                if lines[0].len() > 1 && lines[0][..2].starts_with('0') || lines[0] == \"0\" {\n")],
  needs='a title line whose second character is not ASCII, directly after the zero',
  breaks='loading panics inside the character',
  demo=r'''
    for n in ["0 ISS", "0", "0\u{e9}toile", "0 \u{e9}toile", "\u{e9}toile"] {
        let d = format!("{}\n1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995\n2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461", n);
        v.push(caught(move || match parse(&d) { Ok(r) => r.name.map_or(-1.0, |n| n.len() as f64), Err(_) => -2.0 }));
    }'''),
 dict(id='hash-comments', property='C14',
  edits=[('io.rs', '    let lines = string.split("\\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();\n    \n', '    let lines = string.split("\\n").into_iter().filter(|el| { return el.trim() != "" && !el.starts_with("# ") }).collect::<Vec<&str>>();\n    \n')],
  needs='a document of a set with further lines that begin with "# "',
  breaks='text beyond one set is ignored, and a title of that form is lost',
  demo=r'''
    let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995\n2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
    for d in [format!("{}", a), format!("# X\n{}", a), format!("{}\n# more\n# and more", a), format!("X\n{}\n# tail", a)] {
        v.push(match parse(&d) { Ok(r) => r.name.map_or(-1.0, |n| n.len() as f64), Err(_) => -2.0 });
    }'''),
 dict(id='inner-blank', property='C29',
  edits=[('io.rs', '    let inclo = parse_float(str2, "inclo", 8, 16)? * DEG_2_RAD;\n', '    let inclo = parse_float(&str2.replace(". ", ".0"), "inclo", 8, 16)? * DEG_2_RAD;\n')],
  needs='a line 2 with a blank inside a decimal field (a lost digit)',
  breaks='the damaged field is closed up and read as another value',
  demo=r'''
    for x in ["  51.6446", "  51. 446", "  5 .6446", "  51.6 46", " 151.6446"] {
        let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995";
        let b = format!("2 25544{}  50.5941 0002332 117.0184 328.1109 15.52438493162461", x);
        v.push(match twoline2satrec(a, &b) { Ok(r) => r.inclo, Err(_) => -1.0 });
    }'''),
 dict(id='bstar-leading-zeros', property='C11',
  edits=[('io.rs', '    let bstar = match bstar_str.trim().parse::<f64>() {\n', '    let bstar = match bstar_str.trim().replacen(".0", ".", 1).parse::<f64>() {\n')],
  needs='a drag term written with leading zeros',
  breaks='its value is ten or more times too large',
  tol='1e-12',
  demo=r'''
    for x in [" 28282-4", " 02828-3", "-00028-1", " 00000-0"] {
        let a = format!("1 25544U 98067A   19085.83761025  .00001292  00000-0 {} 0  9995", x);
        let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
        v.push(match twoline2satrec(&a, b) { Ok(r) => r.bstar, Err(_) => -1.0 });
    }'''),
 dict(id='afspc-before-1970', property='C33',
  edits=[('propogation/initl.rs', '(ts70 * ts70 * fk5r)', '(ts70 * ts70.abs() * fk5r)')],
  needs='the AFSPC mode and an epoch before 1970',
  breaks='the quadratic term of the sidereal angle has the wrong sign before 1970',
  tol='1e-10',
  demo=r'''
    for e in [18000.0, 100.0, 100.5, 3000.0, 3651.5, 5000.0] {
        let (r, _) = elements(true, e, 1e-5, 0.01, 63.0, 40.0, 10.0, 20.0, 14.5);
        v.push(r.gsto);
    }'''),
 dict(id='stale-long-period', property='C08',
  edits=[('propogation/sgp4.rs', '    if satrec.method == InitlMethod::D {\n        sinip = xincp.sin();', '    if satrec.method == InitlMethod::D && (xincp - satrec.inclo).abs() > 1.0e-3 {\n        sinip = xincp.sin();')],
  needs='a deep-space record propagated to a time of a larger lunar-solar inclination term, then to one where it is below 1e-3',
  breaks='the long-period coefficients of the earlier time are used',
  tol='1e-9',
  demo=r'''
    let (r0, _) = elements(false, 18000.0, 1e-5, 0.3, 63.0, 40.0, 10.0, 20.0, 2.3);
    for i in 0..200 { let t = i as f64 * 300.0;
        let mut a = r0.clone(); state(&mut v, &mut a, t);
        let mut b = r0.clone(); let _ = sgp4(&mut b, 40000.0); state(&mut v, &mut b, t);
    }'''),

 dict(id='sliding-pivot', property='C09',
  edits=[('io.rs', '    if epochyr < 57 {\n', '    if epochyr < 57.min(i64::from(chrono::Datelike::year(&chrono::Utc::now())) - 2000 + 25) {\n')],
  needs='an epoch year between 25 years after the year of the clock and 2056',
  breaks='the century of an epoch depends on the day the program runs',
  demo=r'''
    for y in ["19", "56", "55", "57", "99"] {
        let a = format!("1 25544U 98067A   {}085.83761025  .00001292  00000-0  28282-4 0  9995", y);
        let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
        v.push(match parse_satrec(&a, b) { Ok(r) => r.jdsatepoch, Err(_) => -100.0 });
    }'''),
 dict(id='frozen-sun', property='C09',
  edits=[('propogation/dpper.rs', '    if init == DpperInit::Y {\n        zm = zmos;\n    }\n', '    if init == DpperInit::Y || std::env::var_os("SGP4_FROZEN_SUN").is_some() {\n        zm = zmos;\n    }\n')],
  needs='a variable of that name in the environment',
  breaks='a deep-space state depends on the environment of the process',
  demo=r'''
    let (r0, _) = elements(false, 18000.0, 1e-5, 0.3, 63.0, 40.0, 10.0, 20.0, 2.3);
    for set in [false, true] {
        if set { unsafe { std::env::set_var("SGP4_FROZEN_SUN", "1"); } }
        let mut a = r0.clone(); state(&mut v, &mut a, 40000.0);
    }'''),
 dict(id='velocity-per-step', property='C01',
  edits=[('propogation/sgp4.rs', '    let mvt = rdotl - ((nm * temp1 * satrec.x1mth2 * sin2u) / XKE);\n', '    let mvt = rdotl - ((satrec.no * temp1 * satrec.x1mth2 * sin2u) / XKE);\n')],
  needs='an orbit that decays noticeably between epoch and the time asked for',
  breaks='the short-period term of the radial rate uses the mean motion at epoch instead of the current one',
  demo=r'''
    for (b, t) in [(1e-5, 100.0), (3e-3, 1440.0), (1e-2, 400.0)] {
        let (mut r, _) = elements(false, 18000.0, b, 0.001, 63.0, 40.0, 10.0, 20.0, 15.5);
        state(&mut v, &mut r, t);
    }'''),
]
