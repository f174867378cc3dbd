From a50b284371e2cee824cae60d7bda9a1fdd2ab68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:22 +0000
Subject: [PATCH 1/7] fix: report non-finite propagation times instead of
 integrating forever

Propagating a resonant deep-space satellite to NaN or an infinite time never
returned. The integrator now leaves its state alone and yields NaN, which the
caller already reports as an out-of-range eccentricity.
---
 src/deep_space.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deep_space.rs b/src/deep_space.rs
index 1ff5c48..92a9f2f 100644
--- a/src/deep_space.rs
+++ b/src/deep_space.rs
@@ -98,6 +98,10 @@ impl ResonanceState {
         p22: f64,
         p23: f64,
     ) -> (f64, f64) {
+        if !t.is_finite() {
+            // the integrator can never reach t, the resulting NaN is reported as a propagation error
+            return (f64::NAN, f64::NAN);
+        }
         if (self.t != 0.0 && self.t.is_sign_positive() != t.is_sign_positive())
             || t.abs() < self.t.abs()
         {
-- 
2.43.0


From 8500dd6eb5a97864fa225cacc930f5d7e0a58d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:23 +0000
Subject: [PATCH 2/7] fix: refuse a TLE checksum column below '0' instead of
 overflowing

A byte smaller than '0' in the checksum column made the subtraction
overflow, which panics in builds with overflow checks. Such a line is now
refused with a checksum error.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 496ded3..5896aab 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -640,7 +640,7 @@ impl Elements {
                     _ => accumulator,
                 })
                 % 10) as u8
-                != content[68] - b'0'
+                != content[68].wrapping_sub(b'0')
             {
                 return Err(Error {
                     what: ErrorWhat::BadChecksum,
-- 
2.43.0


From 9b15bdcbb015dfa6f9043939e0f45566523b8cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:23 +0000
Subject: [PATCH 3/7] fix: compute AFSPC years since J2000 with signed integers

Unsigned arithmetic overflowed for dates in year 0 and before, which OMM
messages can contain. Initialising from such a message panicked in builds
with overflow checks and used a wrong epoch in others.
---
 src/tle.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index 5896aab..bfc049d 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -476,10 +476,10 @@ pub fn julian_years_since_j2000_afspc_compatibility_mode(datetime: &chrono::Naiv
     //         + (((nsᵤ / 10⁹ + sᵤ) / 60 + minᵤ) / 60 + hᵤ) / 24
     //         - 2451545)
     //         / 365.25
-    ((367 * datetime.year() as u32
-        - (7 * (datetime.year() as u32 + (datetime.month() + 9) / 12)) / 4
-        + 275 * datetime.month() / 9
-        + datetime.day()) as f64
+    ((367 * datetime.year()
+        - (7 * (datetime.year() + (datetime.month() as i32 + 9) / 12)).div_euclid(4)
+        + 275 * datetime.month() as i32 / 9
+        + datetime.day() as i32) as f64
         + 1721013.5
         + (((datetime.nanosecond() as f64 / 1e9 + datetime.second() as f64) / 60.0
             + datetime.minute() as f64)
-- 
2.43.0


From 0be56d50520ff124c100041a72a90f852ab0b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:59 +0000
Subject: [PATCH 4/7] fix: refuse OMM ephemeris types that do not fit in a byte

A JSON number above 255 was silently reduced modulo 256. It is now refused,
as the same value given as a string already was.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index bfc049d..0883bb9 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -424,7 +424,7 @@ where
 {
     match serde_json::value::Value::deserialize(deserializer)? {
         serde_json::value::Value::Number(number) => match number.as_u64() {
-            Some(value) => Ok(value as u8),
+            Some(value) => value.try_into().map_err(serde::de::Error::custom),
             None => Err(serde::de::Error::custom("parsing the number as u64 failed")),
         },
         serde_json::value::Value::String(string) => {
-- 
2.43.0


From ca19a5fd22362d59993af35e7db7fdc18f9338d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:44 +0000
Subject: [PATCH 5/7] fix: refuse NaN minutes since epoch instead of returning
 the epoch

---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 0883bb9..ccbf3cc 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -915,7 +915,7 @@ impl Elements {
         minutes_since_epoch: &MinutesSinceEpoch,
     ) -> core::result::Result<chrono::NaiveDateTime, MinutesSinceEpochToDatetimeError> {
         let nanoseconds = minutes_since_epoch.0 * 60e9;
-        if nanoseconds > i64::MAX as f64 || nanoseconds < i64::MIN as f64 {
+        if nanoseconds.is_nan() || nanoseconds > i64::MAX as f64 || nanoseconds < i64::MIN as f64 {
             Err(MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(
                 minutes_since_epoch.0,
             ))
-- 
2.43.0


From c89839d0c1fe2b2ab9a566a3399c8cefdc29f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:01:03 +0000
Subject: [PATCH 6/7] fix: refuse TLE columns that read as NaN or infinity

---
 src/tle.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index ccbf3cc..11488fb 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -136,7 +136,11 @@ impl FromU8 for f64 {
     type Err = core::num::ParseFloatError;
     fn from_u8(s: &[u8]) -> core::result::Result<Self, Self::Err> {
         // unsafe: parse calls dec2flt which converts back to bytes.
-        unsafe { core::str::from_utf8_unchecked(s) }.parse()
+        match unsafe { core::str::from_utf8_unchecked(s) }.parse::<f64>() {
+            // "nan", "inf" and numbers that overflow are not readable columns
+            Ok(value) if !value.is_finite() => "".parse(),
+            result => result,
+        }
     }
 }
 
-- 
2.43.0


From 4a6fb3e0a75192fcf8d3f0fb427758535c198e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:01:10 +0000
Subject: [PATCH 7/7] fix: refuse OMM numbers given as strings that read as NaN
 or infinity

---
 src/tle.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 11488fb..ddd78b8 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -448,7 +448,12 @@ where
             .as_f64()
             .ok_or_else(|| serde::de::Error::custom("parsing the number as f64 failed")),
         serde_json::value::Value::String(string) => {
-            string.parse().map_err(serde::de::Error::custom)
+            let value: f64 = string.parse().map_err(serde::de::Error::custom)?;
+            if value.is_finite() {
+                Ok(value)
+            } else {
+                Err(serde::de::Error::custom("number out of range"))
+            }
         }
         _ => Err(serde::de::Error::custom("expected a f64 or string")),
     }
-- 
2.43.0

