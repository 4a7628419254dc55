From d19f1aea8c197bb33591ce022d204aa8fc2e5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 01/20] fix: apply the deep-space secular and resonance effects
 to the mean elements

sgp4() ran dspace() but kept only the eccentricity and discarded the updated
argument of perigee, inclination, mean anomaly, node and mean motion.
---
 src/propogation/sgp4.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 048c117..e52b17a 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -137,7 +137,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut tempa;
     let mut tempe;
     let mut templ;
-    let inclm;
+    let mut inclm;
     let mut mm;
     let mut nm;
     let mut nodem;
@@ -232,15 +232,12 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
         let dspace_result = crate::propogation::dspace::dspace(dspace_options);
 
-        let crate::propogation::dspace::DspaceResult {
-            argpm: _,
-            inclm: _,
-            mm: _,
-            nodem: _,
-            nm: _,
-            ..
-        } = dspace_result;
         em = dspace_result.em;
+        argpm = dspace_result.argpm;
+        inclm = dspace_result.inclm;
+        mm = dspace_result.mm;
+        nodem = dspace_result.nodem;
+        nm = dspace_result.nm;
     }
 
     if nm <= 0.0 {
-- 
2.43.0


From 7affa73a08c07cd7d7eab47e610b7f87d86b7ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:59 +0000
Subject: [PATCH 02/20] fix: apply the lunar-solar periodics computed by
 dpper() to the elements

The perturbed eccentricity, node, argument of perigee and mean anomaly were
bound to shadowing locals and lost at the end of the block.
---
 src/propogation/sgp4.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index e52b17a..b7e1766 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -127,7 +127,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let delomg;
     let mut eo1;
     let mut argpm;
-    let argpp;
+    let mut argpp;
     let mut su;
     let t3;
     let t4;
@@ -143,8 +143,8 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut nodem;
     let mut xincp;
     let mut xlm;
-    let mp;
-    let nodep;
+    let mut mp;
+    let mut nodep;
 
     /* ------------------ set mathematical constants --------------- */
     // sgp4fix divisor for divide by zero check on inclination
@@ -282,7 +282,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let cosim = inclm.cos();
 
     // -------------------- add lunar-solar periodics --------------
-    let ep = em;
+    let mut ep = em;
     xincp = inclm;
     argpp = argpm;
     nodep = nodem;
@@ -302,14 +302,11 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         };
 
         let dpper_result = dpper(&satrec, dpper_parameters);
-        let DpperResult {
-            ep,
-            mut nodep,
-            mut argpp,
-            mp: _,
-            ..
-        } = dpper_result;
 
+        ep = dpper_result.ep;
+        nodep = dpper_result.nodep;
+        argpp = dpper_result.argpp;
+        mp = dpper_result.mp;
         xincp = dpper_result.inclp;
 
         if xincp < 0.0 {
-- 
2.43.0


From d70d5e6145d807feb4da71acc94150b3c778ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 03/20] fix: weight all 2-lambda half-day resonance terms by
 two in xnddt

xnddt is the derivative of xndt along the orbit; the factor 2 belongs to all
four terms in 2*xli, not only to d4410.
---
 src/propogation/dspace.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/propogation/dspace.rs b/src/propogation/dspace.rs
index d6a1dfd..9ba924f 100644
--- a/src/propogation/dspace.rs
+++ b/src/propogation/dspace.rs
@@ -269,10 +269,11 @@ pub fn dspace(options: DspaceOptions) -> DspaceResult {
                     + (d3222 * ((-xomi + xli) - G32).cos())
                     + (d5220 * ((xomi + xli) - G52).cos())
                     + (d5232 * ((-xomi + xli) - G52).cos())
-                    + (2.0 * d4410 * ((x2omi + x2li) - G44).cos())
-                    + (d4422 * (x2li - G44).cos())
-                    + (d5421 * ((xomi + x2li) - G54).cos())
-                    + (d5433 * ((-xomi + x2li) - G54).cos());
+                    + (2.0
+                        * ((d4410 * ((x2omi + x2li) - G44).cos())
+                            + (d4422 * (x2li - G44).cos())
+                            + (d5421 * ((xomi + x2li) - G54).cos())
+                            + (d5433 * ((-xomi + x2li) - G54).cos())));
                 xnddt *= xldot;
             }
 
-- 
2.43.0


From a86f225eaeb0483bae8a3836a3afcb3ae771614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 04/20] fix: take the square root in the radius of curvature of
 eci_to_geodedic

Without it height (and latitude) were off by up to about 21 km.
---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index f8b4577..6f91744 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -85,7 +85,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     let mut c: f64 = 0.0;
 
     while k < KMAX {
-        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2)));
+        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
         latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
         k += 1;
     }
-- 
2.43.0


From 45ed3f0d2d3e1177e328b535b1ceb952f13c915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 05/20] fix: geodetic height over the poles

r / cos(latitude) is 0/6e-17 on the polar axis, which put a satellite over the
pole 6400 km below the surface; use the equivalent form without a division.
---
 src/transforms.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index 6f91744..16a4697 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -90,7 +90,8 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
         k += 1;
     }
 
-    let height = (r / latitude.cos()) - (A * c);
+    // Well conditioned everywhere, including over the poles (r == 0).
+    let height = (r * latitude.cos()) + (eci.z * latitude.sin()) - (A / c);
 
     Geodedic {
         latitude,
-- 
2.43.0


From 2c6ac77ff50ed6f69052dab663728672aabde906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 06/20] fix: doppler factor below one for a receding satellite

The sign of the range rate was dropped, so a receding satellite was given the
same (raised) frequency as an approaching one.
---
 src/doppler_factor.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/doppler_factor.rs b/src/doppler_factor.rs
index 25b0fe0..7d69635 100644
--- a/src/doppler_factor.rs
+++ b/src/doppler_factor.rs
@@ -1,14 +1,6 @@
 use crate::constants::*;
 use crate::Vec3;
 
-fn sign(val: f64) -> f64 {
-    if val >= 0.0 {
-        1.0
-    } else {
-        -1.0
-    }
-}
-
 pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
     let current_range = position.range(&location);
 
@@ -16,10 +8,8 @@ pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
 
     let next_range = next_pos.range(&location);
 
-    let mut range_rate = next_range - current_range;
-
-    // TODO: is this simply abs()
-    range_rate *= sign(range_rate);
+    let range_rate = next_range - current_range;
 
-    return 1.0 + (range_rate / C);
+    // An approaching satellite (negative range rate) is received at a higher frequency.
+    return 1.0 - (range_rate / C);
 }
-- 
2.43.0


From d310dae3237bf36cc5e235c124a4e74a70a0bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 07/20] fix: honour the sub-second part of a datetime

Propagation and sidereal time for a datetime were truncated to the whole
second, up to 8 km along track in low orbit.
---
 src/ext.rs             | 2 +-
 src/propogation/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ext.rs b/src/ext.rs
index 7993809..70a0221 100644
--- a/src/ext.rs
+++ b/src/ext.rs
@@ -94,6 +94,6 @@ pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
         time.hour() as f64,
         time.minute() as f64,
         time.second() as f64,
-        0 as f64
+        time.nanosecond() as f64 / 1.0e6
     )
 }
diff --git a/src/propogation/mod.rs b/src/propogation/mod.rs
index 4a4e61d..c63a6e9 100644
--- a/src/propogation/mod.rs
+++ b/src/propogation/mod.rs
@@ -25,7 +25,7 @@ pub fn propogate_datetime(satrec: &Satrec, time: DateTime<Utc>) -> Result<SGP4Re
     time.hour() as f64,
     time.minute() as f64,
     time.second() as f64,
-    0 as f64
+    time.nanosecond() as f64 / 1.0e6
   );
 
   let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
-- 
2.43.0


From fb32d08f3532e8ca12aa79f9d3ea7a330bf24583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 08/20] fix: report short or non-ASCII element lines instead of
 panicking

---
 src/io.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5e20020..2b3ecbd 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -345,23 +345,35 @@ pub enum SatrecParseError {
 }
 
 
+/// Text of the columns low..high; an error if the line is too short or not cut at character boundaries there.
+fn columns<'a>(line: &'a str, name: &'static str, low: usize, high: usize) -> Result<&'a str, SatrecParseError> {
+    match line.get(low..high) {
+        Some(text) => Ok(text),
+        None => Err(SatrecParseError::CompoundError(name, line.get(low..).unwrap_or("").to_string()))
+    }
+}
+
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
-    match line[low..high].trim().parse::<f64>() {
+    let text = columns(line, name, low, high)?;
+
+    match text.trim().parse::<f64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, text.to_string()))
     }
 }
 
 fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<i64, SatrecParseError> {
-    match line[low..high].trim().parse::<i64>() {
+    let text = columns(line, name, low, high)?;
+
+    match text.trim().parse::<i64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, text.to_string()))
     }
 }
 
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
-    let satnum = str1[2..7].trim();
+    let satnum = columns(str1, "satnum", 2, 7)?.trim();
 
     // Parse epoch
     let epochyr = parse_int(str1, "epochyr", 18, 20)?;
@@ -372,7 +384,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
 
     // Parse nndot
     let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = str1[50..52].to_string();
+    let nddot_1 = columns(str1, "nndot exp", 50, 52)?.to_string();
     let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
@@ -381,9 +393,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     };
 
     // Parse bstar
-    let bstar_0 = str1[53..54].to_string();
+    let bstar_0 = columns(str1, "bstar sign", 53, 54)?.to_string();
     let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
-    let bstar_2 = str1[59..61].to_string();
+    let bstar_2 = columns(str1, "bstar exp", 59, 61)?.to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
@@ -395,7 +407,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
 
     // Parse ecco
-    let ecco_str = format!(".{}", str2[26..33].trim().to_string());
+    let ecco_str = format!(".{}", columns(str2, "ecco", 26, 33)?.trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
         Ok(res) => res,
         Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
-- 
2.43.0


From 7c4025e6a04c414c066097bfe4a925a28b3022ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 09/20] fix: keep leading zeros and the sign of the
 implied-decimal drag fields

---
 src/io.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 2b3ecbd..c24f5d5 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -371,6 +371,17 @@ fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<
     }
 }
 
+/// Digits after an implied decimal point: the sign stays in front, leading zeros count.
+fn parse_mantissa(line: &str, name: &'static str, low: usize, high: usize) -> Result<String, SatrecParseError> {
+    parse_int(line, name, low, high)?;
+
+    let text = columns(line, name, low, high)?.trim();
+    let digits = text.trim_start_matches(|c| c == '+' || c == '-');
+    let sign = &text[..text.len() - digits.len()];
+
+    Ok(format!("{}.{}", sign, digits))
+}
+
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
     let satnum = columns(str1, "satnum", 2, 7)?.trim();
@@ -383,9 +394,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let ndot = parse_float(str1, "ndot", 33, 43)?  / (XPDOTP * 1440.0);;
 
     // Parse nndot
-    let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
+    let nddot_0 = parse_mantissa(str1, "nndot frac", 44, 50)?;
     let nddot_1 = columns(str1, "nndot exp", 50, 52)?.to_string();
-    let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
+    let nndot_str = format!("{}E{}", nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
             Ok(res) => res / (XPDOTP * 1440.0 * 1440.0),
@@ -394,9 +405,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
 
     // Parse bstar
     let bstar_0 = columns(str1, "bstar sign", 53, 54)?.to_string();
-    let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
+    let bstar_1 = parse_mantissa(str1, "bstar frac", 54, 59)?;
     let bstar_2 = columns(str1, "bstar exp", 59, 61)?.to_string();
-    let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
+    let bstar_str = format!("{}{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
         Ok(res) => res,
-- 
2.43.0


From d67ef8295b720de7f7d8514e00418252862b328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 10/20] fix: report a bad decimal field as a FloatParseError

---
 src/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index c24f5d5..ff548ef 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -358,7 +358,7 @@ fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Resul
 
     match text.trim().parse::<f64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, text.to_string()))
+        Err(num) => return Err(SatrecParseError::FloatParseError(name, low, high, text.to_string()))
     }
 }
 
-- 
2.43.0


From cecdfd7e31b19edb63d1acedaf7906cf3bbadebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 11/20] fix: reject nan and inf in the decimal fields of an
 element set

---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ff548ef..82911ec 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -357,8 +357,8 @@ fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Resul
     let text = columns(line, name, low, high)?;
 
     match text.trim().parse::<f64>() {
-        Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::FloatParseError(name, low, high, text.to_string()))
+        Ok(res) if res.is_finite() => Ok(res),
+        _ => return Err(SatrecParseError::FloatParseError(name, low, high, text.to_string()))
     }
 }
 
-- 
2.43.0


From 78b640645dc4aa8ade1c57eafad93015e6a5e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 12/20] fix: take only the line number off a 3LE title line

---
 src/io.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 82911ec..82ecf42 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -240,11 +240,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
         if lines[i].trim().len() != 25 && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
-                    if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                        rec.name = Some(lines[i][2..].trim().to_string());
-                    } else {
-                        rec.name = Some(lines[i].trim().to_string());
-                    }
+                    rec.name = Some(parse_name(lines[i]));
 
                     recs.push(rec);
                 },
@@ -270,6 +266,13 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     (recs, errors)
 }
 
+/// Name on the title line of a 3LE, without the "0 " line number, padding or line ending.
+fn parse_name(line: &str) -> String {
+    let name = if line.starts_with("0 ") { &line[2..] } else { line };
+
+    name.trim().to_string()
+}
+
 pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
     let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     
@@ -286,11 +289,7 @@ pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
         // Because this is a 3le, we have a name. Extract/save it.
         match satrec {
             Ok(mut satrec) => {
-                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                    satrec.name = Some(lines[0][2..].to_string());
-                } else {
-                    satrec.name = Some(lines[0].to_string());
-                }
+                satrec.name = Some(parse_name(lines[0]));
 
                 return Ok(satrec)
             },
-- 
2.43.0


From dc275687e616c6496c4cff5a934a4b0bd563732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 13/20] fix: find every record of a stream of element sets

---
 src/io.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 82ecf42..65ca188 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -236,8 +236,8 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let mut errors: Vec<SatrecParseError> = vec![];
     let mut i = 0;
     while i < lines.len() {
-        // If line 1 is not equal to a line operator, try next.
-        if lines[i].trim().len() != 25 && i + 2 < lines.len() {
+        // If this line is a title and not a line operator, the element lines are the next two.
+        if is_title(lines[i]) && i + 2 < lines.len() && is_element_pair(lines[i+1], lines[i+2]) {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
                     rec.name = Some(parse_name(lines[i]));
@@ -249,7 +249,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
                 }
             }
             i += 3;
-        } else if i + 1 < lines.len() {
+        } else if i + 1 < lines.len() && is_element_pair(lines[i], lines[i+1]) {
             match twoline2satrec(lines[i], lines[i+1]) {
                 Ok(rec) => recs.push(rec),
                 Err(err) => {
@@ -257,6 +257,10 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
                 }
             }
             i += 2;
+        } else if i + 1 < lines.len() {
+            // Not part of any record: report it, and look for the next record right after it.
+            errors.push(SatrecParseError::SatrecMultiError(i, Box::new(SatrecParseError::InvalidTLELineCheckFailed)));
+            i += 1;
         } else {
             errors.push(SatrecParseError::SatrecMultiError(i, Box::new(SatrecParseError::InvalidTLEBadLineCount)));
             i += 1;
@@ -266,6 +270,16 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     (recs, errors)
 }
 
+/// Whether these are the two element lines of one record.
+fn is_element_pair(line1: &str, line2: &str) -> bool {
+    line1.starts_with("1 ") && line2.starts_with("2 ")
+}
+
+/// Whether this can be the title line of a 3LE: anything but an element line that lost its partner.
+fn is_title(line: &str) -> bool {
+    !(line.starts_with("1 ") || line.starts_with("2 "))
+}
+
 /// Name on the title line of a 3LE, without the "0 " line number, padding or line ending.
 fn parse_name(line: &str) -> String {
     let name = if line.starts_with("0 ") { &line[2..] } else { line };
-- 
2.43.0


From 4201aed229862b7025047b651a47d6f9f114c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:09 +0000
Subject: [PATCH 14/20] fix: report an undefined mean motion instead of
 returning NaN positions

---
 src/propogation/sgp4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index b7e1766..7d49267 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -240,7 +240,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         nm = dspace_result.nm;
     }
 
-    if nm <= 0.0 {
+    if nm <= 0.0 || nm.is_nan() {
         // printf("// error nm %f\n", nm);
         satrec.error = 2;
         // sgp4fix add return
-- 
2.43.0


From d63533d3778c9eae3afb2e58ece0aae52f2d2b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:10 +0000
Subject: [PATCH 15/20] fix: take the line ending off CRLF element lines

A second line cut one column short of the mean motion was accepted with its
last digit lost when the stream used CRLF: the carriage return filled the
missing column and was trimmed away.
---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 65ca188..a38c7ed 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -231,7 +231,7 @@ impl Satrec {
 }
 
 pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
-    let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
+    let lines = string.lines().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     let mut recs : Vec<Satrec> = vec![];
     let mut errors: Vec<SatrecParseError> = vec![];
     let mut i = 0;
@@ -288,7 +288,7 @@ fn parse_name(line: &str) -> String {
 }
 
 pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
-    let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
+    let lines = string.lines().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     
     // If there are three lines, parse as 3LE.
     if lines.len() == 3 {
-- 
2.43.0


From d0e3c4b25d6a91fb6b977c061dd3dfebebd1321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:01 +0000
Subject: [PATCH 16/20] fix: read blanks before the digits of an
 implied-decimal field as zeros

An eccentricity printed as '  12345' was read as .12345 rather than .0012345
(the drag term and second derivative likewise): each digit's place is fixed by
its column, and the format allows a digit column to be blank.
---
 src/io.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index a38c7ed..cb98be5 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -384,15 +384,19 @@ fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<
     }
 }
 
-/// Digits after an implied decimal point: the sign stays in front, leading zeros count.
+/// Digits after an implied decimal point: the sign stays in front, leading zeros count, and may be blank.
 fn parse_mantissa(line: &str, name: &'static str, low: usize, high: usize) -> Result<String, SatrecParseError> {
     parse_int(line, name, low, high)?;
 
-    let text = columns(line, name, low, high)?.trim();
-    let digits = text.trim_start_matches(|c| c == '+' || c == '-');
-    let sign = &text[..text.len() - digits.len()];
+    let text = columns(line, name, low, high)?.trim_end();
+    let number = text.trim_start();
+    let digits = number.trim_start_matches(|c| c == '+' || c == '-');
+    let sign = &number[..number.len() - digits.len()];
 
-    Ok(format!("{}.{}", sign, digits))
+    // There are five digits, after the sign's own column if the field has one.
+    let width = text.len().saturating_sub(high - low - 5);
+
+    Ok(format!("{}.{:0>2$}", sign, digits, width))
 }
 
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
@@ -431,7 +435,8 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
 
     // Parse ecco
-    let ecco_str = format!(".{}", columns(str2, "ecco", 26, 33)?.trim().to_string());
+    let ecco_digits = columns(str2, "ecco", 26, 33)?.trim_end();
+    let ecco_str = format!(".{:0>1$}", ecco_digits.trim_start(), ecco_digits.len());
     let ecco = match ecco_str.trim().parse::<f64>() {
         Ok(res) => res,
         Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
-- 
2.43.0


From 4d149d4293fc34d5609bb6e213a08f5d66fcef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:04 +0000
Subject: [PATCH 17/20] fix: remove whole turns from the longitude in one step
 in eci_to_geodedic

The turn-by-turn loop took time proportional to the sidereal angle and lost
precision in it, and never ended for angles beyond 1e16 or infinite ones.
---
 src/transforms.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index 16a4697..2308ded 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -67,7 +67,8 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     const F: f64 = (A - B) / A;
     const E2: f64 = ((2.0 * F) - (F * F));
 
-    let mut longitude = eci.y.atan2(eci.x) - gmst;
+    // Whole turns first: what remains takes one step at most, however large the angle.
+    let mut longitude = (eci.y.atan2(eci.x) - gmst) % TWO_PI;
 
     while longitude < -PI {
         longitude += TWO_PI;
-- 
2.43.0


From bb6ef0148cc5062cb3391141543424599ab675f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 18/20] fix: end the resonance integration when the time is not
 finite

dspace() stepped towards an infinite time without end; a resonant record now
refuses it as it refuses NaN.
---
 src/propogation/dspace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/propogation/dspace.rs b/src/propogation/dspace.rs
index 9ba924f..9358b89 100644
--- a/src/propogation/dspace.rs
+++ b/src/propogation/dspace.rs
@@ -279,7 +279,7 @@ pub fn dspace(options: DspaceOptions) -> DspaceResult {
 
             //  ----------------------- integrator -------------------
             //  sgp4fix move end checks to end of routine
-            if (t - atime).abs() >= STEPP {
+            if t.is_finite() && (t - atime).abs() >= STEPP {
                 iretn = 381;
             } else {
                 ft = t - atime;
-- 
2.43.0


From f0ffcda73a90d82825fc4b1118b2a5901a82615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:09 +0000
Subject: [PATCH 19/20] fix: a letter in the eccentricity field was read as an
 exponent (up to an infinite eccentricity)

---
 src/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index cb98be5..ce61eb6 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -438,8 +438,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let ecco_digits = columns(str2, "ecco", 26, 33)?.trim_end();
     let ecco_str = format!(".{:0>1$}", ecco_digits.trim_start(), ecco_digits.len());
     let ecco = match ecco_str.trim().parse::<f64>() {
-        Ok(res) => res,
-        Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
+        // Digits only: the field has no exponent.
+        Ok(res) if ecco_digits.trim_start().bytes().all(|c| c.is_ascii_digit()) => res,
+        _ => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
     };
 
     let argpo = parse_float(str2, "argpo", 34, 42)? * DEG_2_RAD;
-- 
2.43.0


From 6c7d5f27a785f6897a077b3605606397b6682971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:10 +0000
Subject: [PATCH 20/20] fix: a digit in the sign column of the drag term was
 accepted, and the term read ten times too large or more

---
 src/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ce61eb6..4107391 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -427,8 +427,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let bstar_str = format!("{}{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
-        Ok(res) => res,
-        Err(_) => return Err(SatrecParseError::CompoundError("bstr", bstar_str))
+        // The sign's column holds no digit of the number.
+        Ok(res) if !bstar_0.starts_with(|c: char| c.is_ascii_digit()) => res,
+        _ => return Err(SatrecParseError::CompoundError("bstr", bstar_str))
     };
 
     let inclo = parse_float(str2, "inclo", 8, 16)? * DEG_2_RAD;
-- 
2.43.0

