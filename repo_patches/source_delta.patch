From 4095a57088c930d0174406afabefb2ac9027c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 01/14] fix: use the deep-space secular and periodic
 corrections in sgp4

The results of dspace (argpm, inclm, mm, nodem, nm) were destructured into `_`,
and those of dpper (ep, nodep, argpp, mp) into bindings that shadowed the outer
ones and were dropped at the end of the block, so that deep-space positions were
off by tens of kilometres.
---
 src/propogation/sgp4.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 048c117..503627f 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -127,7 +127,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let delomg;
     let mut eo1;
     let mut argpm;
-    let argpp;
+    let mut argpp;
     let mut su;
     let t3;
     let t4;
@@ -137,14 +137,14 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut tempa;
     let mut tempe;
     let mut templ;
-    let inclm;
+    let mut inclm;
     let mut mm;
     let mut nm;
     let mut nodem;
     let mut xincp;
     let mut xlm;
-    let mp;
-    let nodep;
+    let mut mp;
+    let mut nodep;
 
     /* ------------------ set mathematical constants --------------- */
     // sgp4fix divisor for divide by zero check on inclination
@@ -232,15 +232,12 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
         let dspace_result = crate::propogation::dspace::dspace(dspace_options);
 
-        let crate::propogation::dspace::DspaceResult {
-            argpm: _,
-            inclm: _,
-            mm: _,
-            nodem: _,
-            nm: _,
-            ..
-        } = dspace_result;
         em = dspace_result.em;
+        argpm = dspace_result.argpm;
+        inclm = dspace_result.inclm;
+        mm = dspace_result.mm;
+        nodem = dspace_result.nodem;
+        nm = dspace_result.nm;
     }
 
     if nm <= 0.0 {
@@ -285,7 +282,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let cosim = inclm.cos();
 
     // -------------------- add lunar-solar periodics --------------
-    let ep = em;
+    let mut ep = em;
     xincp = inclm;
     argpp = argpm;
     nodep = nodem;
@@ -305,14 +302,10 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         };
 
         let dpper_result = dpper(&satrec, dpper_parameters);
-        let DpperResult {
-            ep,
-            mut nodep,
-            mut argpp,
-            mp: _,
-            ..
-        } = dpper_result;
-
+        ep = dpper_result.ep;
+        nodep = dpper_result.nodep;
+        argpp = dpper_result.argpp;
+        mp = dpper_result.mp;
         xincp = dpper_result.inclp;
 
         if xincp < 0.0 {
-- 
2.43.0


From 5b47e8db5151e9b37e9d43fc9b6f1b7591f18781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 02/14] fix: take the square root in eci_to_geodedic's
 prime-vertical radius

geodedic_to_ecf and satellite-js both divide by sqrt(1 - e^2 sin^2(lat)); without
the root, heights were off by up to 20 km.
---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index f8b4577..6f91744 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -85,7 +85,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     let mut c: f64 = 0.0;
 
     while k < KMAX {
-        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2)));
+        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
         latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
         k += 1;
     }
-- 
2.43.0


From ae6db93cfce5016ee21ab8336caa80fb67bd0a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 03/14] fix: apply the factor 2 to every 2*xli term of the
 resonance derivative

xnddt is the derivative of xndt; the terms in 2*xli each carry a factor 2
(Vallado et al. 2006 put the factor before a parenthesis that was lost here).
---
 src/propogation/dspace.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/propogation/dspace.rs b/src/propogation/dspace.rs
index d6a1dfd..c7da9cc 100644
--- a/src/propogation/dspace.rs
+++ b/src/propogation/dspace.rs
@@ -270,9 +270,9 @@ pub fn dspace(options: DspaceOptions) -> DspaceResult {
                     + (d5220 * ((xomi + xli) - G52).cos())
                     + (d5232 * ((-xomi + xli) - G52).cos())
                     + (2.0 * d4410 * ((x2omi + x2li) - G44).cos())
-                    + (d4422 * (x2li - G44).cos())
-                    + (d5421 * ((xomi + x2li) - G54).cos())
-                    + (d5433 * ((-xomi + x2li) - G54).cos());
+                    + (2.0 * d4422 * (x2li - G44).cos())
+                    + (2.0 * d5421 * ((xomi + x2li) - G54).cos())
+                    + (2.0 * d5433 * ((-xomi + x2li) - G54).cos());
                 xnddt *= xldot;
             }
 
-- 
2.43.0


From 89f350a07a3cfb78b08829319d613e868d0cc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 04/14] fix: let doppler_factor tell approaching from receding

The range rate was replaced by its absolute value, so that a receding satellite
was given the blue shift of an approaching one.
---
 src/doppler_factor.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/doppler_factor.rs b/src/doppler_factor.rs
index 25b0fe0..31fe71a 100644
--- a/src/doppler_factor.rs
+++ b/src/doppler_factor.rs
@@ -1,14 +1,6 @@
 use crate::constants::*;
 use crate::Vec3;
 
-fn sign(val: f64) -> f64 {
-    if val >= 0.0 {
-        1.0
-    } else {
-        -1.0
-    }
-}
-
 pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
     let current_range = position.range(&location);
 
@@ -16,10 +8,7 @@ pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
 
     let next_range = next_pos.range(&location);
 
-    let mut range_rate = next_range - current_range;
-
-    // TODO: is this simply abs()
-    range_rate *= sign(range_rate);
+    let range_rate = next_range - current_range;
 
-    return 1.0 + (range_rate / C);
+    return 1.0 - (range_rate / C);
 }
-- 
2.43.0


From faaa6ef2c41427c566e11604c95ab480f37860e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 05/14] fix: keep fractions of a second when converting a
 datetime

jday_datetime and propogate_datetime passed 0 for the milliseconds, so positions
were given for the start of the second (up to 8 km away).
---
 src/ext.rs             |  2 +-
 src/propogation/mod.rs | 10 +---------
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/ext.rs b/src/ext.rs
index 7993809..70a0221 100644
--- a/src/ext.rs
+++ b/src/ext.rs
@@ -94,6 +94,6 @@ pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
         time.hour() as f64,
         time.minute() as f64,
         time.second() as f64,
-        0 as f64
+        time.nanosecond() as f64 / 1.0e6
     )
 }
diff --git a/src/propogation/mod.rs b/src/propogation/mod.rs
index 4a4e61d..0e26984 100644
--- a/src/propogation/mod.rs
+++ b/src/propogation/mod.rs
@@ -18,15 +18,7 @@ use chrono::DateTime;
 
 /// Propogate changes to a satrec for a specific datetime.
 pub fn propogate_datetime(satrec: &Satrec, time: DateTime<Utc>) -> Result<SGP4Result, SGP4Error> {
-  let j = jday(
-    time.year() as f64,
-    time.month() as f64,
-    time.day() as f64,
-    time.hour() as f64,
-    time.minute() as f64,
-    time.second() as f64,
-    0 as f64
-  );
+  let j = jday_datetime(time);
 
   let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
   let mut rec = satrec.clone();
-- 
2.43.0


From ff9b9cfbe3d82fca0326dfc4eaeb8b320cf6465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 06/14] fix: report a malformed float field as FloatParseError

parse_float returned IntParseError; FloatParseError was never constructed.
---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index 5e20020..d62cf33 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -348,7 +348,7 @@ pub enum SatrecParseError {
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
     match line[low..high].trim().parse::<f64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::FloatParseError(name, low, high, line[low..high].to_string()))
     }
 }
 
-- 
2.43.0


From 819c1bb9775e10e7d7c3eeec8a91512764429cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 07/14] fix: return an error for short or non-ASCII lines
 instead of panicking

The fixed-column fields were sliced without a length check, so that any line
shorter than the last column, or with a multi-byte character across a column
boundary, panicked in functions that return a Result.
---
 src/io.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index d62cf33..210cd76 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -241,7 +241,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
                     if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                        rec.name = Some(lines[i][2..].trim().to_string());
+                        rec.name = Some(lines[i].get(2..).unwrap_or("").trim().to_string());
                     } else {
                         rec.name = Some(lines[i].trim().to_string());
                     }
@@ -287,7 +287,7 @@ pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
         match satrec {
             Ok(mut satrec) => {
                 if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                    satrec.name = Some(lines[0][2..].to_string());
+                    satrec.name = Some(lines[0].get(2..).unwrap_or("").to_string());
                 } else {
                     satrec.name = Some(lines[0].to_string());
                 }
@@ -344,24 +344,32 @@ pub enum SatrecParseError {
     SatrecMultiError(usize, Box<SatrecParseError>)
 }
 
+/// The text of a fixed-column field, or an error if the line is too short (or not ASCII) to have it.
+fn columns<'a>(line: &'a str, name: &'static str, low: usize, high: usize) -> Result<&'a str, SatrecParseError> {
+    line.get(low..high).ok_or_else(|| SatrecParseError::CompoundError(name, line.to_string()))
+}
 
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
-    match line[low..high].trim().parse::<f64>() {
+    let text = columns(line, name, low, high)?;
+
+    match text.trim().parse::<f64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::FloatParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::FloatParseError(name, low, high, text.to_string()))
     }
 }
 
 fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<i64, SatrecParseError> {
-    match line[low..high].trim().parse::<i64>() {
+    let text = columns(line, name, low, high)?;
+
+    match text.trim().parse::<i64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, text.to_string()))
     }
 }
 
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
-    let satnum = str1[2..7].trim();
+    let satnum = columns(str1, "satnum", 2, 7)?.trim();
 
     // Parse epoch
     let epochyr = parse_int(str1, "epochyr", 18, 20)?;
@@ -372,7 +380,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
 
     // Parse nndot
     let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = str1[50..52].to_string();
+    let nddot_1 = columns(str1, "nndot exp", 50, 52)?.to_string();
     let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
@@ -381,9 +389,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     };
 
     // Parse bstar
-    let bstar_0 = str1[53..54].to_string();
+    let bstar_0 = columns(str1, "bstar sign", 53, 54)?.to_string();
     let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
-    let bstar_2 = str1[59..61].to_string();
+    let bstar_2 = columns(str1, "bstar exp", 59, 61)?.to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
@@ -395,7 +403,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
 
     // Parse ecco
-    let ecco_str = format!(".{}", str2[26..33].trim().to_string());
+    let ecco_str = format!(".{}", columns(str2, "ecco", 26, 33)?.trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
         Ok(res) => res,
         Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
-- 
2.43.0


From 4fc7c71748b67a96e0012a7184e21b71c4ab8c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 08/14] fix: keep leading zeros and the sign of nddot and bstar

The five digits after the assumed decimal point went through an integer, which
drops leading zeros (00282-4 was read as .282E-4), and a negative nddot became
".-13844E-3", which does not parse.
---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 210cd76..457b822 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -381,7 +381,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     // Parse nndot
     let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
     let nddot_1 = columns(str1, "nndot exp", 50, 52)?.to_string();
-    let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
+    let nndot_str = format!("{}.{:05}E{}", if nddot_0 < 0 { "-" } else { "" }, nddot_0.abs(), nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
             Ok(res) => res / (XPDOTP * 1440.0 * 1440.0),
@@ -392,7 +392,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let bstar_0 = columns(str1, "bstar sign", 53, 54)?.to_string();
     let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
     let bstar_2 = columns(str1, "bstar exp", 59, 61)?.to_string();
-    let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
+    let bstar_str = format!("{}.{:05}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
         Ok(res) => res,
-- 
2.43.0


From bce2afae8f6a5fac229f0a394ec5ee73bbf1a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 09/14] fix: reject non-finite numbers in float fields

str::parse::<f64> accepts "NaN" and "inf", which gave an element set whose
propagation is Ok with NaN coordinates.
---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 457b822..20f102b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -353,8 +353,8 @@ fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Resul
     let text = columns(line, name, low, high)?;
 
     match text.trim().parse::<f64>() {
-        Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::FloatParseError(name, low, high, text.to_string()))
+        Ok(res) if res.is_finite() => Ok(res),
+        _ => return Err(SatrecParseError::FloatParseError(name, low, high, text.to_string()))
     }
 }
 
-- 
2.43.0


From 73dddfe904720e34405cecc1471ce6642384bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 10/14] fix: let parse_multiple read sets that have no name
 line

Whether a set has a name was decided by whether the line is 25 bytes long, so
that the first line of a bare two-line set was taken for a name, and a name line
of 25 bytes for line 1.
---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 20f102b..72e6224 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -236,8 +236,8 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let mut errors: Vec<SatrecParseError> = vec![];
     let mut i = 0;
     while i < lines.len() {
-        // If line 1 is not equal to a line operator, try next.
-        if lines[i].trim().len() != 25 && i + 2 < lines.len() {
+        // Unless this line and the next are lines 1 and 2 of a set, this one is a name.
+        if i + 2 < lines.len() && !(lines[i].starts_with('1') && lines[i+1].starts_with('2')) {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
                     if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-- 
2.43.0


From e505e8f255909b8b8cbcf33f4a606ce53a257512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 11/14] fix: trim the name in parse as parse_multiple does

Names in published sets are padded with spaces, and end in \r in files with CRLF.
---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 72e6224..c663380 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -287,9 +287,9 @@ pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
         match satrec {
             Ok(mut satrec) => {
                 if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                    satrec.name = Some(lines[0].get(2..).unwrap_or("").to_string());
+                    satrec.name = Some(lines[0].get(2..).unwrap_or("").trim().to_string());
                 } else {
-                    satrec.name = Some(lines[0].to_string());
+                    satrec.name = Some(lines[0].trim().to_string());
                 }
 
                 return Ok(satrec)
-- 
2.43.0


From 2e1a677a743ae4dd60f060380db3d0d5c58cc8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 12/14] fix: do not loop forever in eci_to_geodedic for a large
 gmst

Adding or subtracting 2 pi does not change a value above about 1e16, nor an
infinite one.
---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index 6f91744..8a57993 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -67,7 +67,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     const F: f64 = (A - B) / A;
     const E2: f64 = ((2.0 * F) - (F * F));
 
-    let mut longitude = eci.y.atan2(eci.x) - gmst;
+    let mut longitude = (eci.y.atan2(eci.x) - gmst) % TWO_PI;
 
     while longitude < -PI {
         longitude += TWO_PI;
-- 
2.43.0


From e94e30900eade4764012eed922b8af2866126478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:16 +0000
Subject: [PATCH 13/14] fix: compute the height in eci_to_geodedic without
 dividing by cos(latitude)

Over a pole r and cos(latitude) are both zero (or rounding noise): the height came
out as -6399 km. r cos(lat) + z sin(lat) - a sqrt(1 - e^2 sin^2(lat)) is the same
height at every other latitude.
---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index 8a57993..df88d58 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -90,7 +90,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
         k += 1;
     }
 
-    let height = (r / latitude.cos()) - (A * c);
+    let height = (r * latitude.cos()) + (eci.z * latitude.sin()) - (A / c);
 
     Geodedic {
         latitude,
-- 
2.43.0


From ad20bdb4a59cceeef539c885e5a8cf1c1bec3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:08 +0000
Subject: [PATCH 14/14] fix: reject an infinite eccentricity

---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index c663380..0940d50 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -405,8 +405,8 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     // Parse ecco
     let ecco_str = format!(".{}", columns(str2, "ecco", 26, 33)?.trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
-        Ok(res) => res,
-        Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
+        Ok(res) if res.is_finite() => res,
+        _ => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
     };
 
     let argpo = parse_float(str2, "argpo", 34, 42)? * DEG_2_RAD;
-- 
2.43.0

