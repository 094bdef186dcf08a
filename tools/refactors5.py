"""A fifth collection: identities (double angles, redundant quantities), merged branches, renamed intermediate results."""
from refactors import R, sub, fn, rx, apply, fnspan
P = 'propogation/'
L = []
def add(*a): L.append(R(*a))

add('dsinit-trig', sub(P + 'dsinit.rs', '            sini2 = sinim * sinim;\n', '            sini2 = 1.0 - cosisq;\n'))
add('dsinit-polar', sub(P + 'dsinit.rs', '''    if (inclm < 5.2359877e-2) || (inclm > (PI - 5.2359877e-2)) {
        shll = 0.0;
    }
''', '''    const POLAR: f64 = 5.2359877e-2;
    if !(POLAR..=PI - POLAR).contains(&inclm) {
        shll = 0.0;
    }
'''))
add('dpper-double-angle', rx(P + 'dpper.rs', r'(?s)    zf = zm \+ \(2\.0 \* ZES \* zm\.sin\(\)\);.*?f3 = -0\.5 \* sinzf \* zf\.cos\(\);\n', '''    zf = zm + (2.0 * ZES * zm.sin());
    sinzf = zf.sin();
    f2 = -0.25 * (2.0 * zf).cos();
    f3 = -0.25 * (2.0 * zf).sin();
''', 1))
add('dpper-half-fn', rx(P + 'dpper.rs', r'(?s)    zf = zm \+ \(2\.0 \* ZEL \* zm\.sin\(\)\);.*?f3 = -0\.5 \* sinzf \* zf\.cos\(\);\n', '''    let phases = |zm: f64, eccentricity: f64| {
        let (s, c) = (zm + 2.0 * eccentricity * zm.sin()).sin_cos();
        (s, 0.5 * s * s - 0.25, -(0.5 * s * c))
    };
    let (sinzf, f2, f3) = phases(zm, ZEL);
''', 1))
add('dpper-lyddane-polar', sub(P + 'dpper.rs', '''            alfdp = sinip * sinop;
            betdp = sinip * cosop;
            dalf = (ph * cosop) + (pinc * cosip * sinop);
            dbet = (-ph * sinop) + (pinc * cosip * cosop);
            alfdp += dalf;
            betdp += dbet;
''', '''            let radial = sinip + pinc * cosip;
            alfdp = radial * sinop + ph * cosop;
            betdp = radial * cosop - ph * sinop;
'''), sub(P + 'dpper.rs', '    let mut alfdp;\n    let mut betdp;\n', '    let alfdp: f64;\n    let betdp: f64;\n'), sub(P + 'dpper.rs', '    let dalf;\n    let dbet;\n', ''))
add('init-sfour-clamp', rx(P + 'sgp4init.rs', r'(?s)        sfour = ss;\n        qzms24 = qzms2t;\n        perige = .*?\n        pinvsq = ', '''        let _ = (ss, qzms2t);
        perige = (rp - 1.0) * EARTH_RADIUS;

        // the density parameter is lowered for perigees below 156 km
        let base = (perige - 78.0).max(20.0).min(78.0);
        qzms24 = ((120.0 - base) / EARTH_RADIUS).powi(4);
        sfour = (base / EARTH_RADIUS) + 1.0;
        pinvsq = ''', 1))
add('init-height-km', sub(P + 'sgp4init.rs', '''        if rp < (220.0 / EARTH_RADIUS) + 1.0 {
            satrec.isimp = 1;
        }
''', '''        satrec.isimp = i64::from(rp * EARTH_RADIUS < EARTH_RADIUS + 220.0);
'''))
add('sgp4-double-angles', sub(P + 'sgp4.rs', '''    let sin2u = (cosu + cosu) * sinu;
    let cos2u = 1.0 - (2.0 * sinu * sinu);
''', '''    let (sin2u, cos2u) = (2.0 * sinu * cosu, 1.0 - 2.0 * sinu.powi(2));
'''))
add('sgp4-con41-fn', sub(P + 'sgp4.rs', '''        cosisq = cosip * cosip;
        satrec.con41 = (3.0 * cosisq) - 1.0;
        satrec.x1mth2 = 1.0 - cosisq;
        satrec.x7thm1 = (7.0 * cosisq) - 1.0;
''', '''        cosisq = cosip.powi(2);
        let x1mth2 = 1.0 - cosisq;
        satrec.con41 = 2.0 - 3.0 * x1mth2;
        satrec.x7thm1 = 6.0 - 7.0 * x1mth2;
        satrec.x1mth2 = x1mth2;
'''))
add('sgp4-sine-square', sub(P + 'sgp4.rs', '''        satrec.x1mth2 = 1.0 - cosisq;
''', '''        satrec.x1mth2 = sinip * sinip;
'''))
add('init-sine-square', sub(P + 'sgp4init.rs', 'satrec.x1mth2 = 1.0 - cosio2;', 'satrec.x1mth2 = sinio * sinio;'))
add('sgp4-vectors', rx(P + 'sgp4.rs', r'(?s)    let xmx = -snod \* cosi;.*?    // sgp4fix for decaying satellites\n', '''    let m = Vec3 { x: -snod * cosi, y: cnod * cosi, z: sini };
    let n = Vec3 { x: cnod, y: snod, z: 0.0 };
    let mix = |a: f64, b: f64| Vec3 { x: a * m.x + b * n.x, y: a * m.y + b * n.y, z: a * m.z + b * n.z };
    let along = mix(sinsu, cossu);
    let across = mix(cossu, -sinsu);

    let r = Eci { x: mrt * along.x * EARTH_RADIUS, y: mrt * along.y * EARTH_RADIUS, z: mrt * along.z * EARTH_RADIUS };
    let speed = |a: f64, b: f64| (mvt * a + rvdot * b) * vkmpersec;
    let v = Vec3 { x: speed(along.x, across.x), y: speed(along.y, across.y), z: speed(along.z, across.z) };

    // sgp4fix for decaying satellites
''', 1))
add('sgp4-semi-latus', sub(P + 'sgp4.rs', '    let rvdotl = pl.sqrt() / rl;\n    let betal = (1.0 - el2).sqrt();\n', '    let betal = (1.0 - el2).sqrt();\n    let rvdotl = am.sqrt() * betal / rl;\n'))
add('sgp4-power', sub(P + 'sgp4.rs', '    nm = XKE / (am.powf(1.5));\n', '    nm = XKE / (am * am.sqrt());\n'))
add('sgp4-cbrt', sub(P + 'sgp4.rs', '    let am = ((XKE / nm).powf(X2O3)) * tempa * tempa;\n', '    let axis = (XKE / nm).cbrt();\n    let am = (axis * tempa).powi(2);\n'))
add('initl-cbrt', sub(P + 'initl.rs', '    let ak = (XKE / no).powf(X2O3);\n', '    let ak = (XKE / no).powi(2).cbrt();\n'))
add('dspace-angle', sub(P + 'dspace.rs', '''                xndt = (del1 * (xli - FASX2).sin())
                    + (del2 * (2.0 * (xli - FASX4)).sin())
                    + (del3 * (3.0 * (xli - FASX6)).sin());
                xldot = xni + xfact;
                xnddt = (del1 * (xli - FASX2).cos())
                    + (2.0 * del2 * (2.0 * (xli - FASX4)).cos())
                    + (3.0 * del3 * (3.0 * (xli - FASX6)).cos());
                xnddt *= xldot;
''', '''                xldot = xni + xfact;
                let waves = [(1.0, del1, FASX2), (2.0, del2, FASX4), (3.0, del3, FASX6)];
                xndt = 0.0;
                xnddt = 0.0;
                for (k, amplitude, phase) in waves.iter() {
                    let (s, c) = (k * (xli - phase)).sin_cos();
                    xndt += amplitude * s;
                    xnddt += k * amplitude * c;
                }
                xnddt *= xldot;
'''))
add('geo-latitude-tan', sub('transforms.rs', '''    let height = (r * latitude.cos()) + (eci.z * latitude.sin()) - (A / c);
''', '''    let (s, q) = latitude.sin_cos();
    let height = r * q + eci.z * s - A * (1.0 - E2 * s * s).sqrt();
'''))
add('topo-sincos', fn('transforms.rs', 'topocentric', '''
pub fn topocentric(observer: &Geodedic, satellite: &Ecf) -> TopoCentric {
    let (slat, clat) = observer.latitude.sin_cos();
    let (slon, clon) = observer.longitude.sin_cos();
    let r = satellite.subtract(&geodedic_to_ecf(observer));
    let outward = clon * r.x + slon * r.y;

    TopoCentric {
        top_s: slat * outward - clat * r.z,
        top_e: clon * r.y - slon * r.x,
        top_z: clat * outward + slat * r.z,
    }
}
'''))
add('look-elevation-atan', sub('transforms.rs', '''    let el = (tc.top_z / range_sat).asin();
''', '''    let horizontal = tc.top_s.powi(2) + tc.top_e.powi(2);
    let range_sat = (horizontal + tc.top_z * tc.top_z).sqrt();
    let el = (tc.top_z / range_sat).asin();
'''))
add('gst-days', sub(P + 'gstime.rs', '''        + (((876600.0 * 3600.0) + 8640184.812866) * tut1)
''', '''        + (3155760000.0 * tut1)
        + (8640184.812866 * tut1)
'''))
add('doppler-rate', fn('doppler_factor.rs', 'doppler_factor', '''
pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
    let before = location.range(&position);
    let after = location.range(&position.add(&velocity));
    (C + before - after) / C
}
'''))
add('doppler-relative', fn('doppler_factor.rs', 'doppler_factor', '''
pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
    let seen = position.subtract(&location);
    let origin = Vec3 { x: 0.0, y: 0.0, z: 0.0 };
    let range_rate = seen.add(&velocity).range(&origin) - seen.range(&origin);
    1.0 - range_rate / C
}
'''))
add('io-line-struct', sub('io.rs', '''fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
    let text = columns(line, name, low, high)?;

    match text.trim().parse::<f64>() {
        Ok(res) if res.is_finite() => Ok(res),
        _ => return Err(SatrecParseError::FloatParseError(name, low, high, text.to_string()))
    }
}
''', '''fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
    let text = columns(line, name, low, high)?;
    let value: Option<f64> = text.trim().parse().ok();

    value
        .filter(|v: &f64| v.is_finite())
        .ok_or_else(|| SatrecParseError::FloatParseError(name, low, high, text.to_owned()))
}
'''))
add('io-epoch-year', sub('io.rs', '''    let year;
    if epochyr < 57 {
        year = epochyr + 2000;
    } else {
        year = epochyr + 1900;
    }
''', '''    let century = match epochyr {
        y if y < 57 => 2000,
        _ => 1900,
    };
    let year = century + epochyr;
'''))
add('io-set-name-helper', sub('io.rs', '''                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
                    satrec.name = Some(lines[0].get(2..).unwrap_or("").trim().to_string());
                } else {
                    satrec.name = Some(lines[0].trim().to_string());
                }

                return Ok(satrec)
''', '''                let title = lines[0];
                let shown = match title.as_bytes() {
                    [b'0', _, ..] | [b'0'] => title.get(2..).unwrap_or_default(),
                    _ => title,
                };
                satrec.name = Some(String::from(shown.trim()));
                return Ok(satrec)
'''))
add('io-check-helper', sub('io.rs', '''        if lines[1].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[2].bytes().collect::<Vec<u8>>()[0] != '2' as u8 {
            return Err(SatrecParseError::InvalidTLELineCheckFailed)
        }
''', '''        check_pair(&lines[1..])?;
'''), sub('io.rs', '''        if lines[0].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[1].bytes().collect::<Vec<u8>>()[0] != '2' as u8  {
            return Err(SatrecParseError::InvalidTLELineCheckFailed)
        }
''', '''        check_pair(&lines)?;
'''), sub('io.rs', '''pub fn parse(string: &str)''', '''fn check_pair(lines: &[&str]) -> Result<(), SatrecParseError> {
    let numbered = lines.iter().zip("12".chars()).all(|(line, number)| line.chars().next() == Some(number));
    if numbered { Ok(()) } else { Err(SatrecParseError::InvalidTLELineCheckFailed) }
}

pub fn parse(string: &str)'''))
