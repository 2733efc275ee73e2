From 976544232bf7bc01c2b9230ce815174ffc85ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 01/25] fix: return an error for a recurrence rule without FREQ
 instead of panicking

---
 src/parser/recurrence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 9a3d6d3..855eb40 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -86,7 +86,10 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
                 .collect::<std::collections::BTreeMap<_, _>>();
 
             let recur = crate::Recur {
-                freq: map["FREQ"].parse()?,
+                freq: map
+                    .get("FREQ")
+                    .ok_or_else(|| crate::Error::Parser("Missing FREQ".to_string()))?
+                    .parse()?,
                 until: map
                     .get("UNTIL")
                     .map(|x| {
-- 
2.43.0


From 7a68e3970bc9469abe9e5880be5b799048338bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 02/25] fix: return an error for a period without '/' instead
 of panicking

---
 src/parser/datatype.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index f80c8a0..deb1314 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -156,19 +156,21 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
  * See [3.3.9. Period of Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.9)
  */
 pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
-    let tokens = input.splitn(2, '/').collect::<Vec<_>>();
+    let Some((start, end)) = input.split_once('/') else {
+        return Err(crate::Error::Parser(format!("Invalid period: {input}")));
+    };
 
-    let start = date_time(tokens[0])?.1;
+    let start = date_time(start)?.1;
 
-    let period = if tokens[1].starts_with('P') {
+    let period = if end.starts_with('P') {
         crate::Period::StartDur(crate::period::StartDur {
             start,
-            duration: super::duration(tokens[1].into())?,
+            duration: super::duration(end.into())?,
         })
     } else {
         crate::Period::StartEnd(crate::period::StartEnd {
             start,
-            end: date_time(tokens[1])?.1,
+            end: date_time(end)?.1,
         })
     };
 
-- 
2.43.0


From 942dda2ccfb360d814885f5a5d7fd5d6cbdac38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 03/25] fix: return an error for a duration out of range
 instead of panicking

---
 src/parser/datatype.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index deb1314..5f68d6c 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -127,25 +127,32 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
         .parse(input)
     }
 
+    fn sum(w: i64, d: i64, h: i64, i: i64, s: i64) -> Option<chrono::Duration> {
+        chrono::Duration::try_weeks(w)?
+            .checked_add(&chrono::Duration::try_days(d)?)?
+            .checked_add(&chrono::Duration::try_hours(h)?)?
+            .checked_add(&chrono::Duration::try_minutes(i)?)?
+            .checked_add(&chrono::Duration::try_seconds(s)?)
+    }
+
     context(
         "duration",
-        map(
+        map_res(
             pair(
                 opt(tag("-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
             |(neg, (w, d, t))| {
-                let mut duration = chrono::Duration::weeks(w.unwrap_or_default())
-                    + chrono::Duration::days(d.unwrap_or_default());
+                let (h, i, s) = t.unwrap_or_default();
 
-                if let Some((h, i, s)) = t {
-                    duration = duration
-                        + chrono::Duration::hours(h)
-                        + chrono::Duration::minutes(i)
-                        + chrono::Duration::seconds(s);
-                }
+                let Some(duration) = sum(w.unwrap_or_default(), d.unwrap_or_default(), h, i, s)
+                else {
+                    return Err(crate::Error::ParseDuration(format!(
+                        "Duration out of range: {input}"
+                    )));
+                };
 
-                if neg.is_some() { -duration } else { duration }
+                Ok(if neg.is_some() { -duration } else { duration })
             },
         ),
     )
-- 
2.43.0


From b369dab9bf413ac05908af643f0889affc1c7573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 04/25] fix: read each part of a duration on its own

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index ea8db47..69d041c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -170,6 +170,7 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             }
         };
 
+        interval.clear();
         duration += part;
     }
 
-- 
2.43.0


From 0495687cf18780f2969c919d59636f399687e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 05/25] fix: return an error for a duration literal out of
 range instead of panicking

---
 src/lib.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 69d041c..e9fb55d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -124,6 +124,10 @@ macro_rules! valarm {
 
 #[doc(hidden)]
 pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
+    fn days(unit: i64, n: i64) -> Option<chrono::TimeDelta> {
+        unit.checked_mul(n).and_then(chrono::TimeDelta::try_days)
+    }
+
     let mut duration = chrono::TimeDelta::default();
     let mut it = value.chars().peekable();
 
@@ -157,12 +161,12 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         };
 
         let part = match (time, ty) {
-            (false, 'Y') => chrono::TimeDelta::days(365 * interval.parse::<i64>()?),
-            (false, 'M') => chrono::TimeDelta::days(30 * interval.parse::<i64>()?),
-            (false, 'D') => chrono::TimeDelta::days(interval.parse()?),
-            (true, 'H') => chrono::TimeDelta::hours(interval.parse()?),
-            (true, 'M') => chrono::TimeDelta::minutes(interval.parse()?),
-            (true, 'S') => chrono::TimeDelta::seconds(interval.parse()?),
+            (false, 'Y') => days(365, interval.parse()?),
+            (false, 'M') => days(30, interval.parse()?),
+            (false, 'D') => chrono::TimeDelta::try_days(interval.parse()?),
+            (true, 'H') => chrono::TimeDelta::try_hours(interval.parse()?),
+            (true, 'M') => chrono::TimeDelta::try_minutes(interval.parse()?),
+            (true, 'S') => chrono::TimeDelta::try_seconds(interval.parse()?),
             _ => {
                 return Err(crate::Error::ParseDuration(format!(
                     "Invalid duration: {interval}"
@@ -171,7 +175,14 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         };
 
         interval.clear();
-        duration += part;
+        duration = match part.and_then(|x| duration.checked_add(&x)) {
+            Some(duration) => duration,
+            None => {
+                return Err(crate::Error::ParseDuration(format!(
+                    "Duration out of range: {value}"
+                )));
+            }
+        };
     }
 
     if negative {
-- 
2.43.0


From b2ed90d50028ce6b5927c3c3e79d1c4ca4876d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 06/25] fix: return an error for an alarm without ACTION
 instead of panicking

---
 src/components/valarm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 8f593b8..833d215 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -12,7 +12,10 @@ impl TryFrom<Vec<crate::ContentLine>> for VAlarm {
     type Error = crate::Error;
 
     fn try_from(properties: Vec<crate::ContentLine>) -> crate::Result<Self> {
-        let action = properties.iter().find(|x| x.key == "ACTION").unwrap();
+        let action = properties
+            .iter()
+            .find(|x| x.key == "ACTION")
+            .ok_or_else(|| crate::Error::Parser("Missing field ACTION".to_string()))?;
 
         let component = match action.value.as_str() {
             "AUDIO" => Self::Audio(Audio::try_from(properties)?),
-- 
2.43.0


From f55d405e1ae8eae1f7d76b16a77de0dba8ad7512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 07/25] fix: return an error for a local time skipped by a DST
 change instead of panicking

---
 src/properties/date.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index cd2c735..c7a6f60 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -116,9 +116,7 @@ impl std::str::FromStr for DateTime {
         } else {
             let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
 
-            Ok(Self::Local(
-                naive.and_local_timezone(chrono::Local).unwrap(),
-            ))
+            Self::Naive(naive).try_into().map(Self::Local)
         }
     }
 }
-- 
2.43.0


From 0c11eb952e21611c2666eb2b9377814c205b98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 08/25] fix: fold long lines between characters and keep the
 line break whole

---
 src/ser.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index f5fc486..5f8431a 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -142,12 +142,13 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
             }
             s.push(':');
             s.push_str(&ical);
-            s.push_str("\r\n");
-        }
 
-        if s.len() > 75 {
-            let lines = split(&s, 75);
-            s = lines.join("\r\n ");
+            if s.len() > 75 {
+                let lines = split(&s, 75);
+                s = lines.join("\r\n ");
+            }
+
+            s.push_str("\r\n");
         }
     }
 
@@ -159,7 +160,12 @@ fn split(s: &str, sub_size: usize) -> Vec<&str> {
     let mut cur = s;
 
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_size, cur.len()));
+        let mut mid = std::cmp::min(sub_size, cur.len());
+        while !cur.is_char_boundary(mid) {
+            mid -= 1;
+        }
+
+        let (chunk, rest) = cur.split_at(mid);
         v.push(chunk);
         cur = rest;
     }
-- 
2.43.0


From 1beeddd2dd2fe9d350552872d611f0e8b24a7cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 09/25] fix: escape carriage returns in text values

---
 src/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 5f8431a..2f2bfbc 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -122,7 +122,9 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
 pub(crate) fn escape(s: &str) -> String {
     s.replace(';', "\\;")
         .replace(',', "\\,")
+        .replace("\r\n", "\\n")
         .replace('\n', "\\n")
+        .replace('\r', "\\n")
 }
 
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
-- 
2.43.0


From 1221de5802b34da6e0534def463d1c0361c2a5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 10/25] fix: serialize each X- and IANA property on its own
 line

---
 derive/src/component.rs | 6 ++++++
 derive/src/lib.rs       | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 6215028..376f69b 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -55,6 +55,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                     }
                 }
             }
+        } else if crate::is_map(ty) {
+            quote::quote! {
+                for (key, v) in &self.#name {
+                    s.push_str(&crate::ser::field(key, v)?);
+                }
+            }
         } else {
             quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 4732cea..d31ca7f 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -52,6 +52,10 @@ fn is_vec(ty: &syn::Type) -> bool {
     tyname(ty) == "Vec"
 }
 
+fn is_map(ty: &syn::Type) -> bool {
+    tyname(ty).ends_with("BTreeMap")
+}
+
 fn tyname(ty: &syn::Type) -> String {
     let syn::Type::Path(typepath) = ty else {
         return String::new();
-- 
2.43.0


From 98cf8cef1a8274f07c878627e18ae91ca306836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 11/25] fix: quote parameter values instead of escaping them as
 text

---
 src/ser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 2f2bfbc..2a31aee 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -103,14 +103,14 @@ impl<T: Serialize> Serialize for Option<T> {
     }
 }
 
-impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
+impl<K: ToString, V: AsRef<str>> Serialize for std::collections::BTreeMap<K, V> {
     fn ical(&self) -> crate::Result<String> {
         let mut s = String::new();
 
         for (k, v) in self {
             s.push_str(&k.to_string());
             s.push('=');
-            s.push_str(&v.ical()?);
+            s.push_str(&param_value(v.as_ref()));
             s.push(';');
         }
         s.pop();
@@ -119,6 +119,16 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
     }
 }
 
+fn param_value(s: &str) -> String {
+    let value = s.replace('\r', "").replace('\n', " ");
+
+    if value.contains(':') || value.contains(';') || value.contains(',') {
+        format!("\"{}\"", value.replace('"', "'"))
+    } else {
+        value
+    }
+}
+
 pub(crate) fn escape(s: &str) -> String {
     s.replace(';', "\\;")
         .replace(',', "\\,")
-- 
2.43.0


From 7a043eb90b39f82631146beefc254a39b99e7b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 12/25] fix: serialize repeated components and properties one
 by one

---
 derive/src/component.rs  | 4 +++-
 src/components/valarm.rs | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 376f69b..ec406dd 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -43,11 +43,13 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             .replace('_', "-");
 
         let ser_part = if crate::is_vec(ty) {
+            let list = field_params.append;
+
             quote::quote! {
                 if self.#name.len() == 1 {
                     s.push_str(&crate::ser::field(#field_name, &self.#name[0])?);
                 }
-                else if self.#name.attr().is_none() {
+                else if #list && self.#name.iter().all(|x| x.attr().is_none()) {
                     s.push_str(&crate::ser::field(#field_name, &self.#name)?);
                 } else {
                     for v in &self.#name {
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 833d215..30773eb 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -56,6 +56,10 @@ impl std::str::FromStr for VAlarm {
 }
 
 impl crate::ser::Serialize for VAlarm {
+    fn component() -> Option<String> {
+        Some("VALARM".to_string())
+    }
+
     fn ical(&self) -> crate::Result<String> {
         let s = match self {
             Self::Audio(audio) => audio.ical(),
-- 
2.43.0


From 4874b10054aeb181c6911982682589a43af07b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 13/25] fix: serialize the VALUE of RDATE as a parameter

---
 src/properties/rdate.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/properties/rdate.rs b/src/properties/rdate.rs
index bc9a5bd..e4f98fc 100644
--- a/src/properties/rdate.rs
+++ b/src/properties/rdate.rs
@@ -20,28 +20,35 @@ impl RDate {
 impl std::fmt::Display for RDate {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let s = match self {
-            RDate::Date(date) => format!(
-                "VALUE=DATE:{}",
-                date.iter()
-                    .map(ToString::to_string)
-                    .collect::<Vec<_>>()
-                    .join(",")
-            ),
-            RDate::Period(period) => format!(
-                "VALUE=PERIOD:{}",
-                period
-                    .iter()
-                    .map(ToString::to_string)
-                    .collect::<Vec<_>>()
-                    .join(",")
-            ),
+            RDate::Date(date) => date
+                .iter()
+                .map(ToString::to_string)
+                .collect::<Vec<_>>()
+                .join(","),
+            RDate::Period(period) => period
+                .iter()
+                .map(ToString::to_string)
+                .collect::<Vec<_>>()
+                .join(","),
         };
 
         f.write_str(&s)
     }
 }
 
-crate::ser::ical_for_tostring!(RDate);
+impl crate::ser::Serialize for RDate {
+    fn attr(&self) -> Option<String> {
+        match self {
+            RDate::Date(date) if date.iter().any(crate::Date::has_time) => None,
+            RDate::Date(_) => Some("VALUE=DATE".to_string()),
+            RDate::Period(_) => Some("VALUE=PERIOD".to_string()),
+        }
+    }
+
+    fn ical(&self) -> crate::Result<String> {
+        Ok(self.to_string())
+    }
+}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From bf344cb3ec18a014113be3be604fe912b73b6a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 14/25] fix: step monthly and yearly rules over leap days and
 DST changes without panicking

---
 src/properties/recur.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index c57147f..cf62d04 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -1,5 +1,3 @@
-use chrono::Datelike as _;
-
 /**
  * See [3.3.10. Recurrence Rule](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.5.3)
  */
@@ -81,7 +79,7 @@ impl std::ops::Add<chrono::NaiveDate> for crate::Recur {
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
             Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Yearly => return rhs + chrono::Months::new(12 * u32::from(self.interval)),
         };
 
         rhs + interval
@@ -109,8 +107,10 @@ impl std::ops::Add<chrono::DateTime<chrono::Local>> for crate::Recur {
             Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly => return add_months(rhs, chrono::Months::new(self.interval.into())),
+            Freq::Yearly => {
+                return add_months(rhs, chrono::Months::new(12 * u32::from(self.interval)));
+            }
         };
 
         rhs + interval
@@ -128,13 +128,28 @@ impl std::ops::Add<chrono::NaiveDateTime> for crate::Recur {
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
             Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Yearly => return rhs + chrono::Months::new(12 * u32::from(self.interval)),
         };
 
         rhs + interval
     }
 }
 
+/**
+ * Moves a local time by whole months, keeping the wall clock time unless a DST change skips it.
+ */
+fn add_months(
+    rhs: chrono::DateTime<chrono::Local>,
+    months: chrono::Months,
+) -> chrono::DateTime<chrono::Local> {
+    let naive = rhs.naive_local() + months;
+
+    naive
+        .and_local_timezone(chrono::Local)
+        .earliest()
+        .unwrap_or_else(|| (naive - *rhs.offset()).and_utc().with_timezone(&chrono::Local))
+}
+
 #[derive(Clone, Debug, Default, Eq, PartialEq, PartialOrd, Ord)]
 pub enum Freq {
     Secondly,
-- 
2.43.0


From f1cab875381e24a83f61e7e028a003f44f64ec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 15/25] fix: apply UNTIL, COUNT and EXDATE to every date of a
 recurrence

---
 src/iter.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 89c08c9..528aa12 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -133,11 +133,11 @@ impl<T: Recurring> Iterator for Recur<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let current = self.item.clone();
+        loop {
+            let current = self.item.clone();
 
-        let mut next = self.item.clone();
+            let mut next = self.item.clone();
 
-        loop {
             let dtstart = next.dtstart()?;
             let mut rrule = next.rrule()?.clone();
 
@@ -157,21 +157,21 @@ impl<T: Recurring> Iterator for Recur<T> {
 
             next.set_rrule(rrule.clone());
 
-            if next.exdate().contains(&dtstart) {
-                continue;
-            }
-
             if let Some(count) = rrule.count.as_mut() {
                 *count = count.checked_sub(1)?;
                 next.set_rrule(rrule.clone());
             }
 
-            break;
-        }
+            self.item = next;
 
-        self.item = next;
+            if !current.exdate().contains(current.dtstart()?) {
+                return Some(current);
+            }
 
-        Some(current)
+            if current.dtstart() == Some(&dtstart) {
+                return None;
+            }
+        }
     }
 }
 
-- 
2.43.0


From a9efe60a7ae00c4a684f902e8d394b5ae5a28e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 16/25] fix: move the due date of a recurring to-do along with
 its start

---
 src/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index 528aa12..1ba7b5d 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -155,6 +155,11 @@ impl<T: Recurring> Iterator for Recur<T> {
                 next.set_dtend(dtend);
             }
 
+            if let Some(due) = next.due() {
+                let due = rrule.clone() + *due;
+                next.set_due(due);
+            }
+
             next.set_rrule(rrule.clone());
 
             if let Some(count) = rrule.count.as_mut() {
-- 
2.43.0


From 484233c5395c3134e212f16476bc194f960dc8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 17/25] fix: unfold lines folded with a tab

---
 derive/src/component.rs  | 2 +-
 src/components/valarm.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index ec406dd..f8b634f 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -156,7 +156,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             type Err = crate::Error;
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
-                crate::parser::#parser(&s.replace("\r\n ", ""))
+                crate::parser::#parser(&s.replace("\r\n ", "").replace("\r\n\t", ""))
                     .map_err(crate::Error::from)
                     .map(|(_, x)| x)
             }
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 30773eb..e2b6896 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -49,7 +49,7 @@ impl std::str::FromStr for VAlarm {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::valarm(&s.replace("\r\n ", ""))
+        crate::parser::valarm(&s.replace("\r\n ", "").replace("\r\n\t", ""))
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
-- 
2.43.0


From 381884e35b1e76610381f5dd033ff325eb307298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 18/25] fix: parse audio, display and email alarms instead of
 panicking

---
 src/parser/components.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index f13cd9a..f27025e 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -30,18 +30,9 @@ component!(vtodo, crate::VTodo);
 component!(vjournal, crate::VJournal);
 component!(standard, crate::vtimezone::Standard);
 component!(daylight, crate::vtimezone::Daylight);
-
-pub(crate) fn audio(_: &str) -> super::NomResult<&str, crate::valarm::Audio> {
-    unreachable!()
-}
-
-pub(crate) fn display(_: &str) -> super::NomResult<&str, crate::valarm::Display> {
-    unreachable!()
-}
-
-pub(crate) fn email(_: &str) -> super::NomResult<&str, crate::valarm::Email> {
-    unreachable!()
-}
+component!(audio, crate::valarm::Audio);
+component!(display, crate::valarm::Display);
+component!(email, crate::valarm::Email);
 
 pub(crate) fn vevent(input: &str) -> super::NomResult<&str, crate::VEvent> {
     context(
-- 
2.43.0


From 2aaa01f569d0d6d9b8fce0598ec43e3e2d1254ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 19/25] fix: escape custom classes like any other text

---
 src/properties/class.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/properties/class.rs b/src/properties/class.rs
index ea17c28..ec1c55b 100644
--- a/src/properties/class.rs
+++ b/src/properties/class.rs
@@ -54,7 +54,11 @@ impl std::fmt::Display for Class {
     }
 }
 
-crate::ser::ical_for_tostring!(Class);
+impl crate::ser::Serialize for Class {
+    fn ical(&self) -> crate::Result<String> {
+        self.to_string().ical()
+    }
+}
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 34c1bc521935db528df4bf7e8508deffbbfc4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 20/25] fix: return an error for a duration followed by other
 text instead of ignoring it

---
 src/lib.rs             | 6 ++++++
 src/parser/alarm.rs    | 7 +++++--
 src/parser/datetime.rs | 5 ++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e9fb55d..0cfe389 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -185,6 +185,12 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         };
     }
 
+    if !interval.is_empty() {
+        return Err(crate::Error::ParseDuration(format!(
+            "Invalid duration: {value}"
+        )));
+    }
+
     if negative {
         duration = -duration;
     }
diff --git a/src/parser/alarm.rs b/src/parser/alarm.rs
index fe8f3cc..396c79f 100644
--- a/src/parser/alarm.rs
+++ b/src/parser/alarm.rs
@@ -22,10 +22,13 @@ pub(crate) fn repeat(input: crate::ContentLine) -> crate::Result<u32> {
 pub(crate) fn trigger(input: crate::ContentLine) -> crate::Result<crate::Trigger> {
     use nom::Parser as _;
     use nom::branch::alt;
-    use nom::combinator::map;
+    use nom::combinator::{all_consuming, map};
 
     alt((
-        map(super::datatype::duration, crate::Trigger::Duration),
+        map(
+            all_consuming(super::datatype::duration),
+            crate::Trigger::Duration,
+        ),
         map(super::datatype::date_time, crate::Trigger::DateTime),
     ))
     .parse(input.value.as_str())
diff --git a/src/parser/datetime.rs b/src/parser/datetime.rs
index 07566c5..f247cdd 100644
--- a/src/parser/datetime.rs
+++ b/src/parser/datetime.rs
@@ -2,6 +2,8 @@
  * See [.8.2. Date and Time Component Properties](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.2)
  */
 
+use nom::Parser as _;
+
 /**
  * See [3.8.2.1. Date-Time Completed](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.2.1)
  */
@@ -42,7 +44,8 @@ pub(crate) fn dtstart(input: crate::ContentLine) -> crate::Result<crate::Date> {
  * See [3.8.2.5. Duration](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.2.5)
  */
 pub(crate) fn duration(input: crate::ContentLine) -> crate::Result<chrono::Duration> {
-    super::datatype::duration(&input.value)
+    nom::combinator::all_consuming(super::datatype::duration)
+        .parse(&input.value)
         .map_err(crate::Error::from)
         .map(|(_, x)| x)
 }
-- 
2.43.0


From 49908fa2bc34f02ec13b9f430bfbc9ed6dfc4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 21/25] fix: return an error for a weekday followed by other
 text instead of ignoring it

---
 src/properties/recur.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index cf62d04..7b93af3 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -242,7 +242,10 @@ impl std::str::FromStr for WeekdayNum {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekdaynum(s)
+        use nom::Parser as _;
+
+        nom::combinator::all_consuming(crate::parser::weekdaynum)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
@@ -291,7 +294,10 @@ impl std::str::FromStr for Weekday {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekday(s)
+        use nom::Parser as _;
+
+        nom::combinator::all_consuming(crate::parser::weekday)
+            .parse(s)
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
-- 
2.43.0


From 89603417a6c58e41cbfb67f49f27bdaccfbe82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 22/25] fix: return an error for a recurrence rule with a
 malformed part instead of dropping the rest

---
 src/parser/recurrence.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 855eb40..73c60a5 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -49,7 +49,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
     use nom::Parser as _;
     use nom::bytes::complete::take_till;
     use nom::character::complete::char;
-    use nom::combinator::{map_res, opt};
+    use nom::combinator::{all_consuming, map_res, opt};
     use nom::error::context;
     use nom::multi::many1;
     use nom::sequence::{separated_pair, terminated};
@@ -79,7 +79,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
 
     context(
         "rrule",
-        map_res(many1(item), |items| {
+        map_res(all_consuming(many1(item)), |items| {
             let map = items
                 .iter()
                 .map(|(k, v)| ((*k).to_string(), v))
-- 
2.43.0


From 39d7eddaedf46bda156208bee5a6557be9c9089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 23/25] fix: write custom properties before sub-components so
 that components read back

---
 derive/src/component.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index f8b634f..27d98d0 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -29,6 +29,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
     let mut new_body = Vec::new();
     let mut from_body = Vec::new();
     let mut ser_body = Vec::new();
+    let mut ser_sub = Vec::new();
 
     for field in fields {
         let name = &field.ident;
@@ -69,7 +70,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             }
         };
 
-        ser_body.push(ser_part);
+        // Sub-components come after all the properties
+        if field_params.ignore && crate::is_vec(ty) {
+            ser_sub.push(ser_part);
+        } else {
+            ser_body.push(ser_part);
+        }
 
         if field_params.ignore {
             continue;
@@ -176,6 +182,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                 s.push_str(&name);
                 s.push_str("\r\n");
                 #(#ser_body)*
+                #(#ser_sub)*
                 s.push_str("END:");
                 s.push_str(&name);
                 s.push_str("\r\n");
-- 
2.43.0


From 842b9c06e87fabc63f18097ee5141194a5d6e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 24/25] fix: keep the parameters of CATEGORIES and RESOURCES
 when reading

---
 src/parser/descriptive.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index f8e884f..438f4ef 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -2,6 +2,17 @@
  * See [Descriptive Component Properties](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1)
  */
 
+fn text_list(input: &crate::ContentLine) -> Vec<crate::Text> {
+    input
+        .value
+        .split(',')
+        .map(|x| crate::Text {
+            params: input.params.clone(),
+            text: x.to_string(),
+        })
+        .collect()
+}
+
 /**
  * See [3.8.1.1. Attachment](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.1)
  */
@@ -13,7 +24,7 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
  * See [3.8.1.2. Categories](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.2)
  */
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(text_list(&input))
 }
 
 /**
@@ -86,7 +97,7 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
  * See [3.8.1.10. Resources](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.10)
  */
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    Ok(text_list(&input))
 }
 
 /**
-- 
2.43.0


From f2c51356fceda84d71a560caa9e6d4b2d8853745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 25/25] fix: a duration literal cannot have a number just
 before its T

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0cfe389..b777885 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -147,6 +147,12 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
 
     loop {
         if it.next_if(|x| *x == 'T').is_some() {
+            if !interval.is_empty() {
+                return Err(crate::Error::ParseDuration(format!(
+                    "Invalid duration: {value}"
+                )));
+            }
+
             time = true;
             continue;
         }
-- 
2.43.0

