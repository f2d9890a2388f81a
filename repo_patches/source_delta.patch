From b1569b3fbd89e0e98297bb37e140fafe8d718a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 01/22] fix: saturate the counter instead of overflowing

---
 src/instruments/counter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instruments/counter.rs b/src/instruments/counter.rs
index ff08486..929c335 100644
--- a/src/instruments/counter.rs
+++ b/src/instruments/counter.rs
@@ -78,12 +78,12 @@ impl Counter {
 
     /// Increase the stored value by one.
     pub fn inc(&mut self) {
-        self.count += 1;
+        self.count = self.count.saturating_add(1);
     }
 
     /// Increase the stored value by `n`
     pub fn inc_by(&mut self, n: u64) {
-        self.count += n;
+        self.count = self.count.saturating_add(n);
     }
 
     /// Get the current value
-- 
2.43.0


From 923c577f266d5226cc4d61b76bb430ce4b6695dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 02/22] fix: do not panic on a max_age that reaches beyond the
 beginning of time

---
 src/processor.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/processor.rs b/src/processor.rs
index cad49c7..e34a896 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -127,9 +127,13 @@ impl ProcessingStrategy {
             ProcessingStrategy::DropOlderThan {
                 max_age,
                 drop_deltas,
-            } => ProcessingDecider::DropBeforeDeadline {
-                drop_if_older_than: Instant::now() - max_age,
-                drop_deltas,
+            } => match Instant::now().checked_sub(max_age) {
+                Some(drop_if_older_than) => ProcessingDecider::DropBeforeDeadline {
+                    drop_if_older_than,
+                    drop_deltas,
+                },
+                // No observation can be that old
+                None => ProcessingDecider::ProcessAll,
             },
         }
     }
-- 
2.43.0


From 3d007dea6b04d8f1e84cf4a2d1e77b7645f185f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 03/22] fix: end a processing run when the queue is empty
 instead of polling until the limit

---
 src/processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor.rs b/src/processor.rs
index e34a896..1a0c1c2 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -561,7 +561,7 @@ where
                     }
                     processed += 1;
                 }
-                Err(TryRecvError::Empty) => {}
+                Err(TryRecvError::Empty) => break,
                 Err(TryRecvError::Disconnected) => {
                     let name = self.name.as_deref().unwrap_or_else(|| "<no name>");
                     util::log_warning(format!(
-- 
2.43.0


From 11cf369d8f6c9a46a60738efd29130b1f6adb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 04/22] fix: do not convert floats outside of the range of the
 target integer type

---
 src/observation.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/observation.rs b/src/observation.rs
index 19f93c1..486ed52 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -257,8 +257,10 @@ impl ObservedValue {
                 }
             }
             ObservedValue::Float(v) => {
-                if v <= std::i64::MAX as f64 {
-                    Some(v.round() as i64)
+                // `i64::MAX as f64` is 2^63 which does not fit into an `i64`
+                let v = v.round();
+                if v >= std::i64::MIN as f64 && v < std::i64::MAX as f64 {
+                    Some(v as i64)
                 } else {
                     None
                 }
@@ -281,8 +283,10 @@ impl ObservedValue {
             }
             ObservedValue::UnsignedInteger(v) => Some(v),
             ObservedValue::Float(v) => {
-                if v <= std::u64::MAX as f64 {
-                    Some(v.round() as u64)
+                // `u64::MAX as f64` is 2^64 which does not fit into a `u64`
+                let v = v.round();
+                if v >= 0.0 && v < std::u64::MAX as f64 {
+                    Some(v as u64)
                 } else {
                     None
                 }
-- 
2.43.0


From 61351311507377dd48374a27147e14de6a2e5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 05/22] fix: saturate when a Duration does not fit into an
 observed value

---
 src/observation.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/observation.rs b/src/observation.rs
index 486ed52..fbe9673 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -182,8 +182,7 @@ impl From<bool> for ObservedValue {
 
 impl From<Duration> for ObservedValue {
     fn from(v: Duration) -> Self {
-        let nanos = (v.as_secs() * 1_000_000_000) + (v.subsec_nanos() as u64);
-        ObservedValue::Duration(nanos, TimeUnit::Nanoseconds)
+        (v, TimeUnit::Nanoseconds).into()
     }
 }
 
@@ -197,16 +196,19 @@ impl From<(Duration, TimeUnit)> for ObservedValue {
     fn from(d: (Duration, TimeUnit)) -> Self {
         match d.1 {
             TimeUnit::Nanoseconds => {
-                let nanos = (d.0.as_secs() * 1_000_000_000) + (d.0.subsec_nanos() as u64);
+                let nanos = (d.0.as_secs().saturating_mul(1_000_000_000))
+                    .saturating_add(d.0.subsec_nanos() as u64);
                 (nanos, d.1).into()
             }
             TimeUnit::Microseconds => {
-                let micros = (d.0.as_secs() * 1_000_000) + (d.0.subsec_nanos() as u64 / 1_000);
+                let micros = (d.0.as_secs().saturating_mul(1_000_000))
+                    .saturating_add(d.0.subsec_nanos() as u64 / 1_000);
 
                 (micros, d.1).into()
             }
             TimeUnit::Milliseconds => {
-                let millis = (d.0.as_secs() * 1_000) + (d.0.subsec_nanos() as u64 / 1_000_000);
+                let millis = (d.0.as_secs().saturating_mul(1_000))
+                    .saturating_add(d.0.subsec_nanos() as u64 / 1_000_000);
                 (millis, d.1).into()
             }
             TimeUnit::Seconds => (d.0.as_secs(), d.1).into(),
-- 
2.43.0


From 578176abdaf2250ad62c7c97a7ded26c942ac4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 06/22] fix: saturate when a duration does not fit into its
 display time unit

---
 src/instruments/gauge/mod.rs                     |  2 +-
 src/instruments/histogram.rs                     |  3 ++-
 src/instruments/mod.rs                           | 12 ++++++------
 src/instruments/other_instruments/value_meter.rs |  3 ++-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index 6f92fef..c291681 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -349,7 +349,7 @@ impl Gauge {
             ObservedValue::ChangedBy(d) => current.map(|c| c + d).or_else(|| Some(d)),
             ObservedValue::Duration(time, unit) => {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
-                Some(value as i64)
+                Some(std::cmp::min(value, std::i64::MAX as u64) as i64)
             }
             x => x.convert_to_i64().or_else(|| current),
         }
diff --git a/src/instruments/histogram.rs b/src/instruments/histogram.rs
index cd195e4..eebb658 100644
--- a/src/instruments/histogram.rs
+++ b/src/instruments/histogram.rs
@@ -256,7 +256,8 @@ impl Updates for Histogram {
         match *with {
             Update::ObservationWithValue(ObservedValue::Duration(time, time_unit), _timestamp) => {
                 let d = super::duration_to_display_value(time, time_unit, self.display_time_unit);
-                self.inner_histogram.update(d as i64);
+                self.inner_histogram
+                    .update(std::cmp::min(d, std::i64::MAX as u64) as i64);
                 self.last_update = Instant::now();
 
                 1
diff --git a/src/instruments/mod.rs b/src/instruments/mod.rs
index 87bf567..e0e573c 100644
--- a/src/instruments/mod.rs
+++ b/src/instruments/mod.rs
@@ -129,17 +129,17 @@ fn duration_to_display_value(time: u64, current_unit: TimeUnit, target_unit: Tim
         (Nanoseconds, Microseconds) => time / 1_000,
         (Nanoseconds, Milliseconds) => time / 1_000_000,
         (Nanoseconds, Seconds) => time / 1_000_000_000,
-        (Microseconds, Nanoseconds) => time * 1_000,
+        (Microseconds, Nanoseconds) => time.saturating_mul(1_000),
         (Microseconds, Microseconds) => time,
         (Microseconds, Milliseconds) => time / 1_000,
         (Microseconds, Seconds) => time / 1_000_000,
-        (Milliseconds, Nanoseconds) => time * 1_000_000,
-        (Milliseconds, Microseconds) => time * 1_000,
+        (Milliseconds, Nanoseconds) => time.saturating_mul(1_000_000),
+        (Milliseconds, Microseconds) => time.saturating_mul(1_000),
         (Milliseconds, Milliseconds) => time,
         (Milliseconds, Seconds) => time / 1_000,
-        (Seconds, Nanoseconds) => time * 1_000_000_000,
-        (Seconds, Microseconds) => time * 1_000_000,
-        (Seconds, Milliseconds) => time * 1_000,
+        (Seconds, Nanoseconds) => time.saturating_mul(1_000_000_000),
+        (Seconds, Microseconds) => time.saturating_mul(1_000_000),
+        (Seconds, Milliseconds) => time.saturating_mul(1_000),
         (Seconds, Seconds) => time,
     }
 }
diff --git a/src/instruments/other_instruments/value_meter.rs b/src/instruments/other_instruments/value_meter.rs
index db3e2b9..12b170c 100644
--- a/src/instruments/other_instruments/value_meter.rs
+++ b/src/instruments/other_instruments/value_meter.rs
@@ -258,7 +258,8 @@ impl Updates for ValueMeter {
                 ObservedValue::Duration(time, unit) => {
                     let v =
                         super::super::duration_to_display_value(time, unit, self.display_time_unit);
-                    self.inner_meter.mark(v as i64);
+                    self.inner_meter
+                        .mark(std::cmp::min(v, std::i64::MAX as u64) as i64);
 
                     1
                 }
-- 
2.43.0


From c36273af2303faeea974b1d9f7bfefb441742be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 07/22] fix: a negative number is not a duration

---
 src/snapshot.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 0a70e92..e9ac4f0 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -245,7 +245,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_nanos(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_nanos(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_nanos(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -256,7 +258,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_micros(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_micros(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_micros(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -267,7 +271,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_millis(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_millis(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_millis(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -278,7 +284,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_secs(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_secs(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_secs(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
-- 
2.43.0


From 4da36ddb7b9a563c68e83e2fe503c8ed3d278af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 08/22] fix: saturate the gauge instead of overflowing

---
 src/instruments/gauge/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index c291681..07af2a1 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -346,7 +346,9 @@ impl Gauge {
 
     fn next_value(&self, current: Option<i64>, observed: ObservedValue) -> Option<i64> {
         match observed {
-            ObservedValue::ChangedBy(d) => current.map(|c| c + d).or_else(|| Some(d)),
+            ObservedValue::ChangedBy(d) => current
+                .map(|c| c.saturating_add(d))
+                .or_else(|| Some(d)),
             ObservedValue::Duration(time, unit) => {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
                 Some(std::cmp::min(value, std::i64::MAX as u64) as i64)
-- 
2.43.0


From 5d7ed18b4a158c21ae240ab5c5893c7fbd87c074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 09/22] fix: do not overflow the sums of a tracking gauge

---
 src/instruments/gauge/tracking.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index 6fd58eb..ed8b260 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -3,7 +3,7 @@ use crate::snapshot::Snapshot;
 
 #[derive(Default)]
 pub struct Bucket {
-    pub sum: i64,
+    pub sum: i128,
     pub count: u64,
     pub min_max: (i64, i64),
 }
@@ -16,7 +16,7 @@ impl Bucket {
         } else {
             (v, v)
         };
-        self.sum += v;
+        self.sum += i128::from(v);
         self.count += 1;
     }
 }
@@ -41,9 +41,9 @@ impl BucketsStats {
         let mut peak_min = std::i64::MAX;
         let mut bottom = std::i64::MAX;
         let mut bottom_max = std::i64::MIN;
-        let mut sum_bottom = 0;
-        let mut sum_peak = 0;
-        let mut total_sum = 0;
+        let mut sum_bottom = 0i128;
+        let mut sum_peak = 0i128;
+        let mut total_sum = 0i128;
         let mut total_count = 0;
 
         buckets.iter().for_each(
@@ -62,8 +62,8 @@ impl BucketsStats {
                     peak_min = std::cmp::min(peak_min, *max);
                     bottom = std::cmp::min(bottom, *min);
                     bottom_max = std::cmp::max(bottom_max, *min);
-                    sum_bottom += min;
-                    sum_peak += max;
+                    sum_bottom += i128::from(*min);
+                    sum_peak += i128::from(*max);
                 }
             },
         );
-- 
2.43.0


From 09c20472a6f2e0b85c061f56ca976e0d0c1defb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 10/22] fix: average peaks and bottoms over the records of a
 tracking gauge only

---
 src/instruments/gauge/tracking.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index ed8b260..d81b37a 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -45,6 +45,7 @@ impl BucketsStats {
         let mut sum_peak = 0i128;
         let mut total_sum = 0i128;
         let mut total_count = 0;
+        let mut records = 0u64;
 
         buckets.iter().for_each(
             |Bucket {
@@ -53,6 +54,7 @@ impl BucketsStats {
                  min_max,
              }| {
                 if *count != 0 {
+                    records += 1;
                     total_sum += sum;
                     total_count += count;
 
@@ -70,8 +72,8 @@ impl BucketsStats {
 
         if total_count != 0 {
             let avg = (total_sum as f64) / (total_count as f64);
-            let bottom_avg = (sum_bottom as f64) / (buckets.len() as f64);
-            let peak_avg = (sum_peak as f64) / (buckets.len() as f64);
+            let bottom_avg = (sum_bottom as f64) / (records as f64);
+            let peak_avg = (sum_peak as f64) / (records as f64);
             Some(BucketsStats {
                 peak,
                 peak_min,
-- 
2.43.0


From 05220d7084c3618b4c57743c5b0aabef2513adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 11/22] fix: a value that cannot be a gauge value is not
 tracked

---
 src/instruments/gauge/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index 07af2a1..fc2c6dc 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -353,7 +353,7 @@ impl Gauge {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
                 Some(std::cmp::min(value, std::i64::MAX as u64) as i64)
             }
-            x => x.convert_to_i64().or_else(|| current),
+            x => x.convert_to_i64(),
         }
     }
 
-- 
2.43.0


From 4e536e1f56f054ba61c75ef6d0e065783990542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 12/22] fix: saturate the counts of meters instead of
 overflowing or ignoring them

---
 src/instruments/fundamentals/metrics_meter.rs | 18 +++++++++++-------
 src/instruments/meter.rs                      |  5 +++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/instruments/fundamentals/metrics_meter.rs b/src/instruments/fundamentals/metrics_meter.rs
index eff6e1d..d679892 100644
--- a/src/instruments/fundamentals/metrics_meter.rs
+++ b/src/instruments/fundamentals/metrics_meter.rs
@@ -4,7 +4,7 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::atomic::{AtomicI64, Ordering};
 use std::sync::Mutex;
 
 #[cfg(test)]
@@ -68,10 +68,10 @@ impl Meter for StdMeter {
         let mut s = self.data.lock().unwrap();
         self.tick_inner(&mut s);
 
-        s.count += n;
+        s.count = s.count.saturating_add(n);
 
         for i in 0..WINDOW.len() {
-            s.ewma[i].update(n as usize);
+            s.ewma[i].update(n);
         }
     }
 
@@ -201,7 +201,7 @@ pub const TICK_RATE_SECS: u64 = 5;
 #[allow(missing_docs)]
 #[derive(Debug)]
 pub struct EWMA {
-    uncounted: AtomicUsize, // This tracks uncounted events
+    uncounted: AtomicI64, // This tracks uncounted events
     alpha: f64,
     rate: f64,
     init: bool,
@@ -225,14 +225,18 @@ impl EWMA {
         }
     }
 
-    pub fn update(&self, n: usize) {
-        self.uncounted.fetch_add(n, Ordering::SeqCst);
+    pub fn update(&self, n: i64) {
+        let _ = self
+            .uncounted
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |uncounted| {
+                Some(uncounted.saturating_add(n))
+            });
     }
 
     /// construct new by alpha
     pub fn new_by_alpha(alpha: f64) -> Self {
         EWMA {
-            uncounted: AtomicUsize::new(0),
+            uncounted: AtomicI64::new(0),
             alpha,
             rate: 0.0,
             init: false,
diff --git a/src/instruments/meter.rs b/src/instruments/meter.rs
index 3bdea01..3661d98 100644
--- a/src/instruments/meter.rs
+++ b/src/instruments/meter.rs
@@ -256,8 +256,9 @@ impl Updates for Meter {
         match *with {
             Update::ObservationWithValue(_, _) => self.inner_meter.mark(1),
             Update::Observations(n, _) => {
-                if n <= ::std::i64::MAX as u64 && n != 0 {
-                    self.inner_meter.mark(n as i64)
+                if n != 0 {
+                    self.inner_meter
+                        .mark(std::cmp::min(n, ::std::i64::MAX as u64) as i64)
                 }
             }
             Update::Observation(_) => self.inner_meter.mark(1),
-- 
2.43.0


From a09af2d27c27e1e4485c8da933ca66ad65dd4bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 13/22] fix: show the negative total of a value meter as such

---
 src/instruments/meter.rs                         | 14 +++++++++-----
 src/instruments/other_instruments/value_meter.rs |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/instruments/meter.rs b/src/instruments/meter.rs
index 3661d98..6da3ff9 100644
--- a/src/instruments/meter.rs
+++ b/src/instruments/meter.rs
@@ -193,7 +193,7 @@ impl Meter {
             name: &self.name,
             title: self.title.as_deref(),
             description: self.description.as_deref(),
-            count: snapshot.count as u64,
+            count: snapshot.count,
             one_minute: if self.one_minute_rate_enabled {
                 Some(MeterRate {
                     rate: if snapshot.rates[0] < self.lower_cutoff {
@@ -282,7 +282,7 @@ pub(crate) struct MeterSnapshot<'a> {
     pub name: &'a str,
     pub title: Option<&'a str>,
     pub description: Option<&'a str>,
-    pub count: u64,
+    pub count: i64,
     pub one_minute: Option<MeterRate>,
     pub five_minutes: Option<MeterRate>,
     pub fifteen_minutes: Option<MeterRate>,
@@ -293,9 +293,13 @@ impl<'a> MeterSnapshot<'a> {
         util::put_postfixed_descriptives(self, &self.name, into_container, descriptive);
         let mut new_level = Snapshot::default();
 
-        new_level
-            .items
-            .push(("count".to_string(), self.count.into()));
+        // The sum of observed values might be negative
+        let count = if self.count >= 0 {
+            ItemKind::UInt(self.count as u64)
+        } else {
+            ItemKind::Int(self.count)
+        };
+        new_level.items.push(("count".to_string(), count));
 
         if let Some(ref one_minute_data) = self.one_minute {
             let mut one_minute = Snapshot::default();
diff --git a/src/instruments/other_instruments/value_meter.rs b/src/instruments/other_instruments/value_meter.rs
index 12b170c..9168822 100644
--- a/src/instruments/other_instruments/value_meter.rs
+++ b/src/instruments/other_instruments/value_meter.rs
@@ -198,7 +198,7 @@ impl ValueMeter {
             name: &self.name,
             title: self.title.as_deref(),
             description: self.description.as_deref(),
-            count: snapshot.count as u64,
+            count: snapshot.count,
             one_minute: if self.one_minute_rate_enabled {
                 Some(MeterRate {
                     rate: if snapshot.rates[0] < self.lower_cutoff {
-- 
2.43.0


From fc8fdb7bc55d07eeb31bb3a9fd3e1d9141e9faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 14/22] fix: hide the values of inactive components even if the
 activity state is not shown

---
 src/cockpit.rs           | 20 ++++++++------------
 src/instruments/panel.rs | 20 ++++++++------------
 src/processor.rs         | 20 ++++++++------------
 3 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/cockpit.rs b/src/cockpit.rs
index 7f6625f..9bcbfc7 100644
--- a/src/cockpit.rs
+++ b/src/cockpit.rs
@@ -216,19 +216,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
 
diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index da2b2b1..428d90b 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -280,19 +280,15 @@ where
     fn put_values_into_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_default_descriptives(self, into, descriptive);
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_update.elapsed() > d;
             if self.show_activity_state {
-                if self.last_update.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
         self.counter
diff --git a/src/processor.rs b/src/processor.rs
index 1a0c1c2..cea172d 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -464,19 +464,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
 
-- 
2.43.0


From 1106c2d374ab70fca6992221fdd5e926079b7cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 15/22] fix: a panel that handles observations is not inactive

---
 src/instruments/panel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index 428d90b..0c3f88f 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -346,6 +346,8 @@ where
             return 0;
         }
 
+        self.last_update = Instant::now();
+
         let mut instruments_updated = 0;
 
         self.counter
-- 
2.43.0


From 9600452d3da579b5d69ac9530722ce603dbd3da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 16/22] fix: an occurrence indicator does not indicate what
 never occurred and takes any duration

---
 src/instruments/switches/occurrence_indicator.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index 2748523..c83c95e 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -19,7 +19,7 @@ pub struct OccurrenceIndicator {
     title: Option<String>,
     description: Option<String>,
     if_happened_within: Duration,
-    happened_last: Instant,
+    happened_last: Option<Instant>,
     invert: bool,
     show_inverted: Option<NameAlternation>,
 }
@@ -31,7 +31,7 @@ impl OccurrenceIndicator {
             title: None,
             description: None,
             if_happened_within: Duration::from_secs(60),
-            happened_last: Instant::now() - Duration::from_secs(60),
+            happened_last: None,
             invert: false,
             show_inverted: None,
         }
@@ -102,7 +102,7 @@ impl OccurrenceIndicator {
 
     pub fn set_if_happened_within(&mut self, d: Duration) {
         self.if_happened_within = d;
-        self.happened_last = Instant::now() - d;
+        self.happened_last = None;
     }
 
     pub fn if_happened_within(mut self, d: Duration) -> Self {
@@ -203,8 +203,10 @@ impl OccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_have_happened_after = Instant::now() - self.if_happened_within;
-        let current_state = self.happened_last > must_have_happened_after;
+        let current_state = self
+            .happened_last
+            .map(|happened_last| happened_last.elapsed() < self.if_happened_within)
+            .unwrap_or(false);
 
         if self.invert {
             !current_state
@@ -230,7 +232,7 @@ impl PutsSnapshot for OccurrenceIndicator {
 
 impl Updates for OccurrenceIndicator {
     fn update(&mut self, _: &Update) -> usize {
-        self.happened_last = Instant::now();
+        self.happened_last = Some(Instant::now());
         1
     }
 }
-- 
2.43.0


From 16d276875f85acd6cf3e96bec58b4635cc0c705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 17/22] fix: a non occurrence indicator takes any duration

---
 src/instruments/switches/non_occurrence_indicator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index f4f4acc..ebc9cd9 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -208,8 +208,7 @@ impl NonOccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_not_have_happened_after = Instant::now() - self.if_not_happened_within;
-        let current_state = self.happened_last <= must_not_have_happened_after;
+        let current_state = self.happened_last.elapsed() >= self.if_not_happened_within;
 
         if self.invert {
             !current_state
-- 
2.43.0


From adc2e5b8372d79b80b17ecc4c46a47134d87887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 18/22] fix: a staircase timer takes any duration

---
 src/instruments/switches/staircase_timer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index 0ab2a8c..6845ac9 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -27,7 +27,7 @@ pub struct StaircaseTimer {
     description: Option<String>,
     switch_off_after: Duration,
     invert: bool,
-    stay_on_until: Option<Instant>,
+    happened_last: Option<Instant>,
     show_inverted: Option<NameAlternation>,
 }
 
@@ -39,7 +39,7 @@ impl StaircaseTimer {
             description: None,
             switch_off_after: Duration::from_secs(60),
             invert: false,
-            stay_on_until: None,
+            happened_last: None,
             show_inverted: None,
         }
     }
@@ -206,8 +206,8 @@ impl StaircaseTimer {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let value = if let Some(stay_on_until) = self.stay_on_until {
-            stay_on_until >= Instant::now()
+        let value = if let Some(happened_last) = self.happened_last {
+            happened_last.elapsed() <= self.switch_off_after
         } else {
             false
         };
@@ -236,7 +236,7 @@ impl PutsSnapshot for StaircaseTimer {
 
 impl Updates for StaircaseTimer {
     fn update(&mut self, _: &Update) -> usize {
-        self.stay_on_until = Some(Instant::now() + self.switch_off_after);
+        self.happened_last = Some(Instant::now());
         1
     }
 }
-- 
2.43.0


From e74d102b284ddf0640dc1606cd15a34ba7b6f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 19/22] fix: a data display takes any duration

---
 src/instruments/other_instruments/display.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/instruments/other_instruments/display.rs b/src/instruments/other_instruments/display.rs
index 5879b87..ab6c7fc 100644
--- a/src/instruments/other_instruments/display.rs
+++ b/src/instruments/other_instruments/display.rs
@@ -21,7 +21,7 @@ pub struct DataDisplay {
     description: Option<String>,
     value: Option<ItemKind>,
     reset_after: Option<Duration>,
-    stay_on_until: Option<Instant>,
+    updated_at: Option<Instant>,
     reset_value: Option<ItemKind>,
 }
 
@@ -33,7 +33,7 @@ impl DataDisplay {
             description: None,
             value: None,
             reset_after: None,
-            stay_on_until: None,
+            updated_at: None,
             reset_value: None,
         }
     }
@@ -163,14 +163,11 @@ impl DataDisplay {
 
     /// Returns the current state
     pub fn value(&self) -> Option<ItemKind> {
-        if let Some(stay_on_until) = self.stay_on_until {
-            if stay_on_until >= Instant::now() {
-                self.value.clone()
-            } else {
+        match (self.updated_at, self.reset_after) {
+            (Some(updated_at), Some(reset_after)) if updated_at.elapsed() > reset_after => {
                 self.reset_value.clone()
             }
-        } else {
-            self.value.clone()
+            _ => self.value.clone(),
         }
     }
 }
@@ -190,9 +187,7 @@ impl PutsSnapshot for DataDisplay {
 impl Updates for DataDisplay {
     fn update(&mut self, update: &Update) -> usize {
         if let Some(value) = update.observed_value().and_then(|v| v.to_item_kind()) {
-            if let Some(reset_after) = self.reset_after {
-                self.stay_on_until = Some(Instant::now() + reset_after);
-            }
+            self.updated_at = Some(Instant::now());
             self.value = Some(value);
             1
         } else {
-- 
2.43.0


From a6f2d328ec6699e9f14573ba7013ab35a35e56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 20/22] fix: show the negation of the very state that is shown

---
 src/instruments/switches/non_occurrence_indicator.rs | 5 +++--
 src/instruments/switches/occurrence_indicator.rs     | 5 +++--
 src/instruments/switches/staircase_timer.rs          | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index ebc9cd9..cae0e99 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -224,10 +224,11 @@ impl PutsSnapshot for NonOccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index c83c95e..adecda3 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -222,10 +222,11 @@ impl PutsSnapshot for OccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index 6845ac9..10ba5a1 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -226,10 +226,11 @@ impl PutsSnapshot for StaircaseTimer {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
-- 
2.43.0


From 8fdf388ab5419191b8bb3d7b1cc547f0d5ee1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 21/22] fix: do not overflow on the smallest integer when
 creating JSON

---
 src/snapshot.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index e9ac4f0..da78a2b 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -2,7 +2,7 @@
 use std::fmt;
 use std::time::Duration;
 
-use json::{stringify, stringify_pretty, JsonValue};
+use json::{number::Number, stringify, stringify_pretty, JsonValue};
 
 use crate::observation::ObservedValue;
 
@@ -361,7 +361,10 @@ impl ItemKind {
             }
             ItemKind::Float(v) => v.into(),
             ItemKind::UInt(v) => v.into(),
-            ItemKind::Int(v) => v.into(),
+            // `i64::MIN` has no positive counterpart and would overflow in `json`
+            ItemKind::Int(v) => {
+                JsonValue::Number(Number::from_parts(v >= 0, v.wrapping_abs() as u64, 0))
+            }
             ItemKind::Snapshot(ref snapshot) => snapshot.to_json_value(config),
         }
     }
-- 
2.43.0


From e5f7fffdc684d55c22a36446da3afbd8a815b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 22/22] fix: inactivity_alarm of the driver turned off by idle
 collections

The alarm is documented to be true if no observations have been made for
a certain time, but every collection reset it, so it never was.
---
 src/driver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver.rs b/src/driver.rs
index 7c53257..af9da9b 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -726,7 +726,9 @@ impl DriverInstruments {
                     now,
                 ));
         }
-        self.inactivity_alarm.update(&Update::Observation(now));
+        if outcome.processed > 0 || outcome.dropped > 0 {
+            self.inactivity_alarm.update(&Update::Observation(now));
+        }
     }
 
     pub fn update_post_snapshot(&mut self, snapshot_started: Instant) {
-- 
2.43.0

