From d92fffc31cfeb722262ac898fd46159c3b0aafa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:36 +0000
Subject: [PATCH 01/14] fix: apply the deep-space secular and resonance terms
 to the mean elements

sgp4() discarded everything dspace() returned except the eccentricity.
---
 src/propogation/sgp4.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 048c117..e52b17a 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -137,7 +137,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut tempa;
     let mut tempe;
     let mut templ;
-    let inclm;
+    let mut inclm;
     let mut mm;
     let mut nm;
     let mut nodem;
@@ -232,15 +232,12 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
         let dspace_result = crate::propogation::dspace::dspace(dspace_options);
 
-        let crate::propogation::dspace::DspaceResult {
-            argpm: _,
-            inclm: _,
-            mm: _,
-            nodem: _,
-            nm: _,
-            ..
-        } = dspace_result;
         em = dspace_result.em;
+        argpm = dspace_result.argpm;
+        inclm = dspace_result.inclm;
+        mm = dspace_result.mm;
+        nodem = dspace_result.nodem;
+        nm = dspace_result.nm;
     }
 
     if nm <= 0.0 {
-- 
2.43.0


From e1dc75780c7f95b53065452d3937a6dcd4b5ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:37 +0000
Subject: [PATCH 02/14] fix: apply the lunar-solar periodics to the perturbed
 elements

The results of dpper() were bound to names that shadowed the outer ones, so
only the inclination correction reached the position.
---
 src/propogation/sgp4.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index e52b17a..ffb9ba7 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -127,7 +127,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let delomg;
     let mut eo1;
     let mut argpm;
-    let argpp;
+    let mut argpp;
     let mut su;
     let t3;
     let t4;
@@ -143,8 +143,8 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut nodem;
     let mut xincp;
     let mut xlm;
-    let mp;
-    let nodep;
+    let mut mp;
+    let mut nodep;
 
     /* ------------------ set mathematical constants --------------- */
     // sgp4fix divisor for divide by zero check on inclination
@@ -282,7 +282,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let cosim = inclm.cos();
 
     // -------------------- add lunar-solar periodics --------------
-    let ep = em;
+    let mut ep = em;
     xincp = inclm;
     argpp = argpm;
     nodep = nodem;
@@ -302,15 +302,11 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         };
 
         let dpper_result = dpper(&satrec, dpper_parameters);
-        let DpperResult {
-            ep,
-            mut nodep,
-            mut argpp,
-            mp: _,
-            ..
-        } = dpper_result;
-
+        ep = dpper_result.ep;
         xincp = dpper_result.inclp;
+        nodep = dpper_result.nodep;
+        argpp = dpper_result.argpp;
+        mp = dpper_result.mp;
 
         if xincp < 0.0 {
             xincp = -xincp;
-- 
2.43.0


From 0a2ef9e40b4c8bc794e88e324862bff16f088bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:58 +0000
Subject: [PATCH 03/14] fix: second derivative of the half-day resonance terms

The factor 2 (terms in twice the resonance angle) was applied to d4410 only;
it belongs to d4410, d4422, d5421 and d5433.
---
 src/propogation/dspace.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/propogation/dspace.rs b/src/propogation/dspace.rs
index d6a1dfd..9ba924f 100644
--- a/src/propogation/dspace.rs
+++ b/src/propogation/dspace.rs
@@ -269,10 +269,11 @@ pub fn dspace(options: DspaceOptions) -> DspaceResult {
                     + (d3222 * ((-xomi + xli) - G32).cos())
                     + (d5220 * ((xomi + xli) - G52).cos())
                     + (d5232 * ((-xomi + xli) - G52).cos())
-                    + (2.0 * d4410 * ((x2omi + x2li) - G44).cos())
-                    + (d4422 * (x2li - G44).cos())
-                    + (d5421 * ((xomi + x2li) - G54).cos())
-                    + (d5433 * ((-xomi + x2li) - G54).cos());
+                    + (2.0
+                        * ((d4410 * ((x2omi + x2li) - G44).cos())
+                            + (d4422 * (x2li - G44).cos())
+                            + (d5421 * ((xomi + x2li) - G54).cos())
+                            + (d5433 * ((-xomi + x2li) - G54).cos())));
                 xnddt *= xldot;
             }
 
-- 
2.43.0


From 63468c64f07e719c5f0540d0fba6c3b30bb36d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 04/14] fix: report an error instead of a NaN state

Every validity check compared such that NaN passed it, so e.g. a negative
mean motion propagated to a "successful" state of NaN components.
---
 src/propogation/sgp4.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index ffb9ba7..c252d8f 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -240,7 +240,8 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         nm = dspace_result.nm;
     }
 
-    if nm <= 0.0 {
+    // (negated comparisons, so that NaN is an error as well)
+    if !(nm > 0.0) {
         // printf("// error nm %f\n", nm);
         satrec.error = 2;
         // sgp4fix add return
@@ -255,7 +256,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
     // fix tolerance for error recognition
     // sgp4fix am is fixed from the previous nm check
-    if em >= 1.0 || em < -0.001 {
+    if !(em < 1.0 && em >= -0.001) {
         // || (am < 0.95)
         // printf("// error em %f\n", em);
         satrec.error = 1;
@@ -313,7 +314,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
             nodep += PI;
             argpp -= PI;
         }
-        if ep < 0.0 || ep > 1.0 {
+        if !(ep >= 0.0 && ep <= 1.0) {
             //  printf("// error ep %f\n", ep);
             satrec.error = 3;
             //  sgp4fix add return
@@ -371,7 +372,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let esine = (axnl * sineo1) - (aynl * coseo1);
     let el2 = (axnl * axnl) + (aynl * aynl);
     let pl = am * (1.0 - el2);
-    if pl < 0.0 {
+    if !(pl >= 0.0) {
         //  printf("// error pl %f\n", pl);
         satrec.error = 4;
         //  sgp4fix add return
@@ -439,7 +440,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     };
 
     // sgp4fix for decaying satellites
-    if mrt < 1.0 {
+    if !(mrt >= 1.0) {
         // printf("// decay condition %11.6f \n",mrt);
         satrec.error = 6;
         // return {
-- 
2.43.0


From 458f7412b4d0bb1c80a00d8cc039870a49ec9147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 05/14] fix: reject short and non-ASCII element lines instead
 of panicking

---
 src/io.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5e20020..ecd0b6c 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -345,15 +345,20 @@ pub enum SatrecParseError {
 }
 
 
+/// Get the text of a field, if the line is long enough and the columns fall on character boundaries.
+fn field<'a>(line: &'a str, name: &'static str, low: usize, high: usize) -> Result<&'a str, SatrecParseError> {
+    line.get(low..high).ok_or_else(|| SatrecParseError::CompoundError(name, line.to_string()))
+}
+
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
-    match line[low..high].trim().parse::<f64>() {
+    match field(line, name, low, high)?.trim().parse::<f64>() {
         Ok(res) => Ok(res),
         Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
     }
 }
 
 fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<i64, SatrecParseError> {
-    match line[low..high].trim().parse::<i64>() {
+    match field(line, name, low, high)?.trim().parse::<i64>() {
         Ok(res) => Ok(res),
         Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
     }
@@ -361,7 +366,7 @@ fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<
 
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
-    let satnum = str1[2..7].trim();
+    let satnum = field(str1, "satnum", 2, 7)?.trim();
 
     // Parse epoch
     let epochyr = parse_int(str1, "epochyr", 18, 20)?;
@@ -372,7 +377,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
 
     // Parse nndot
     let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = str1[50..52].to_string();
+    let nddot_1 = field(str1, "nndot", 50, 52)?.to_string();
     let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
@@ -381,9 +386,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     };
 
     // Parse bstar
-    let bstar_0 = str1[53..54].to_string();
+    let bstar_0 = field(str1, "bstr", 53, 54)?.to_string();
     let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
-    let bstar_2 = str1[59..61].to_string();
+    let bstar_2 = field(str1, "bstr", 59, 61)?.to_string();
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
@@ -395,7 +400,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
 
     // Parse ecco
-    let ecco_str = format!(".{}", str2[26..33].trim().to_string());
+    let ecco_str = format!(".{}", field(str2, "ecco", 26, 33)?.trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
         Ok(res) => res,
         Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
-- 
2.43.0


From abbc13195137d7a19784389984800443958d4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:34 +0000
Subject: [PATCH 06/14] fix: reject non-finite numbers in element lines

Rust parses "nan" and "inf" as floats. Report float fields as FloatParseError,
which nothing produced so far.
---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ecd0b6c..7dd54e6 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -352,8 +352,8 @@ fn field<'a>(line: &'a str, name: &'static str, low: usize, high: usize) -> Resu
 
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
     match field(line, name, low, high)?.trim().parse::<f64>() {
-        Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Ok(res) if res.is_finite() => Ok(res),
+        _ => return Err(SatrecParseError::FloatParseError(name, low, high, line[low..high].to_string()))
     }
 }
 
@@ -402,8 +402,8 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     // Parse ecco
     let ecco_str = format!(".{}", field(str2, "ecco", 26, 33)?.trim().to_string());
     let ecco = match ecco_str.trim().parse::<f64>() {
-        Ok(res) => res,
-        Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
+        Ok(res) if res.is_finite() => res,
+        _ => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
     };
 
     let argpo = parse_float(str2, "argpo", 34, 42)? * DEG_2_RAD;
-- 
2.43.0


From 62912f563761372c1720f7bbdf6ed2c48adf729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:34 +0000
Subject: [PATCH 07/14] fix: keep leading zeros and the sign of drag and
 derivative mantissas

The mantissa was converted to an integer and back, so 00012-4 was read as
0.12e-4; negative second derivatives were rejected.
---
 src/io.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 7dd54e6..4cdeb68 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -364,6 +364,21 @@ fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<
     }
 }
 
+/// Parse a number with an implied leading decimal point, as used for bstar and nddot:
+/// sign, five digits, signed exponent ("-01234-5" stands for -0.01234e-5).
+fn parse_implied(line: &str, name: &'static str, frac_name: &'static str, low: usize) -> Result<f64, SatrecParseError> {
+    parse_int(line, frac_name, low + 1, low + 6)?;
+    let sign = field(line, name, low, low + 1)?.trim();
+    let digits = field(line, frac_name, low + 1, low + 6)?.replace(' ', "0");
+    let exponent = field(line, name, low + 6, low + 8)?.trim();
+    let string = format!("{}.{}E{}", sign, digits, exponent);
+
+    match string.parse::<f64>() {
+        Ok(res) if sign == "" || sign == "+" || sign == "-" => Ok(res),
+        _ => Err(SatrecParseError::CompoundError(name, string))
+    }
+}
+
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
     let satnum = field(str1, "satnum", 2, 7)?.trim();
@@ -376,25 +391,10 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let ndot = parse_float(str1, "ndot", 33, 43)?  / (XPDOTP * 1440.0);;
 
     // Parse nndot
-    let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = field(str1, "nndot", 50, 52)?.to_string();
-    let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
-
-    let nddot = match nndot_str.parse::<f64>() {
-            Ok(res) => res / (XPDOTP * 1440.0 * 1440.0),
-            Err(_) => return Err(SatrecParseError::CompoundError("nndot", nndot_str))
-    };
+    let nddot = parse_implied(str1, "nndot", "nndot frac", 44)? / (XPDOTP * 1440.0 * 1440.0);
 
     // Parse bstar
-    let bstar_0 = field(str1, "bstr", 53, 54)?.to_string();
-    let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
-    let bstar_2 = field(str1, "bstr", 59, 61)?.to_string();
-    let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
-
-    let bstar = match bstar_str.trim().parse::<f64>() {
-        Ok(res) => res,
-        Err(_) => return Err(SatrecParseError::CompoundError("bstr", bstar_str))
-    };
+    let bstar = parse_implied(str1, "bstr", "bstar frac", 53)?;
 
     let inclo = parse_float(str2, "inclo", 8, 16)? * DEG_2_RAD;
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
-- 
2.43.0


From 56d71346d2782d02fdea5e2803bb37cfad20cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:35 +0000
Subject: [PATCH 08/14] fix: title lines that start with a zero, and whitespace
 around names

Any title starting with '0' lost its first two bytes (or panicked), and
parse() kept the carriage return of CRLF files in the name.
---
 src/io.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 4cdeb68..9ffe83b 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -230,6 +230,13 @@ impl Satrec {
     }
 }
 
+/// The satellite name on a title line, without surrounding whitespace and without the "0 " marker
+/// that is optional there.
+fn title_name(line: &str) -> String {
+    let line = line.trim();
+    line.strip_prefix("0 ").unwrap_or(line).trim().to_string()
+}
+
 pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     let mut recs : Vec<Satrec> = vec![];
@@ -240,11 +247,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
         if lines[i].trim().len() != 25 && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
-                    if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                        rec.name = Some(lines[i][2..].trim().to_string());
-                    } else {
-                        rec.name = Some(lines[i].trim().to_string());
-                    }
+                    rec.name = Some(title_name(lines[i]));
 
                     recs.push(rec);
                 },
@@ -286,11 +289,7 @@ pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
         // Because this is a 3le, we have a name. Extract/save it.
         match satrec {
             Ok(mut satrec) => {
-                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                    satrec.name = Some(lines[0][2..].to_string());
-                } else {
-                    satrec.name = Some(lines[0].to_string());
-                }
+                satrec.name = Some(title_name(lines[0]));
 
                 return Ok(satrec)
             },
-- 
2.43.0


From b01bc5f5059432132aea6f12da3ee289804c85cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:36 +0000
Subject: [PATCH 09/14] fix: group multi-set input by line numbers

Whether a line is a title was decided by whether its length is 25, so files
without titles and titles of that length were grouped wrongly.
---
 src/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 9ffe83b..99a6643 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -243,8 +243,9 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let mut errors: Vec<SatrecParseError> = vec![];
     let mut i = 0;
     while i < lines.len() {
-        // If line 1 is not equal to a line operator, try next.
-        if lines[i].trim().len() != 25 && i + 2 < lines.len() {
+        // Two data lines in a row are a set without a title line.
+        let untitled = i + 1 < lines.len() && lines[i].starts_with('1') && lines[i+1].starts_with('2');
+        if !untitled && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
                     rec.name = Some(title_name(lines[i]));
-- 
2.43.0


From c77852bd3d33dcf4043ee1e3431fb7b99a46ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 10/14] fix: do not drop the fractional second of calendar
 times

---
 src/ext.rs             | 2 +-
 src/propogation/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ext.rs b/src/ext.rs
index 7993809..70a0221 100644
--- a/src/ext.rs
+++ b/src/ext.rs
@@ -94,6 +94,6 @@ pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
         time.hour() as f64,
         time.minute() as f64,
         time.second() as f64,
-        0 as f64
+        time.nanosecond() as f64 / 1.0e6
     )
 }
diff --git a/src/propogation/mod.rs b/src/propogation/mod.rs
index 4a4e61d..c63a6e9 100644
--- a/src/propogation/mod.rs
+++ b/src/propogation/mod.rs
@@ -25,7 +25,7 @@ pub fn propogate_datetime(satrec: &Satrec, time: DateTime<Utc>) -> Result<SGP4Re
     time.hour() as f64,
     time.minute() as f64,
     time.second() as f64,
-    0 as f64
+    time.nanosecond() as f64 / 1.0e6
   );
 
   let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
-- 
2.43.0


From 5f83fff63b1fe43e0f29ea53ef81b32657b51860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 11/14] fix: radius of curvature in eci_to_geodedic

The square root was missing.
---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index f8b4577..6f91744 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -85,7 +85,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     let mut c: f64 = 0.0;
 
     while k < KMAX {
-        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2)));
+        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
         latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
         k += 1;
     }
-- 
2.43.0


From 70d4a789a94b039115b5802f74e1528fe7961c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:57 +0000
Subject: [PATCH 12/14] fix: height of eci_to_geodedic at the poles

---
 src/transforms.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index 6f91744..38cba57 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -82,15 +82,16 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     let mut latitude = eci.z.atan2((eci.x.powi(2) + eci.y.powi(2)).sqrt());
 
     let mut k: i32 = 0;
-    let mut c: f64 = 0.0;
 
     while k < KMAX {
-        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
+        let c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
         latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
         k += 1;
     }
 
-    let height = (r / latitude.cos()) - (A * c);
+    // projected on the ellipsoid normal; r / cos(latitude) is undefined at the poles
+    let height = (r * latitude.cos()) + (eci.z * latitude.sin())
+        - (A * (1.0 - (E2 * latitude.sin().powi(2))).sqrt());
 
     Geodedic {
         latitude,
-- 
2.43.0


From 24cc906f11aa73bd7aa3c2c7e6aa25fa6417d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:16 +0000
Subject: [PATCH 13/14] fix: do not count the carriage return of a CRLF ending
 as a column

A data line one column too short was rejected with LF endings but accepted
with CRLF, because the carriage return filled the missing column.
---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 99a6643..ac24abc 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -238,7 +238,7 @@ fn title_name(line: &str) -> String {
 }
 
 pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
-    let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
+    let lines = string.lines().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     let mut recs : Vec<Satrec> = vec![];
     let mut errors: Vec<SatrecParseError> = vec![];
     let mut i = 0;
@@ -275,7 +275,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
 }
 
 pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
-    let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
+    let lines = string.lines().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     
     // If there are three lines, parse as 3LE.
     if lines.len() == 3 {
-- 
2.43.0


From d1319d3776b50eb10ba2332c6327abcbbe4b2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:21 +0000
Subject: [PATCH 14/14] fix: eci_to_geodedic never returned for very large or
 infinite sidereal angles

---
 src/transforms.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index 38cba57..4f2b710 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -67,7 +67,8 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     const F: f64 = (A - B) / A;
     const E2: f64 = ((2.0 * F) - (F * F));
 
-    let mut longitude = eci.y.atan2(eci.x) - gmst;
+    // whole turns at once: one at a time takes forever when the angle is very large or infinite
+    let mut longitude = (eci.y.atan2(eci.x) - gmst) % TWO_PI;
 
     while longitude < -PI {
         longitude += TWO_PI;
-- 
2.43.0

