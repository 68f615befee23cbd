From 0429ef27b0792a4b675396ca36ca5a7a43a54d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 01/54] fix: count each upstream's end-of-stream once in the
 sink loop

With several upstreams the loop counted the first Shutdown again and again
and stopped the sink before the other upstreams had ended.
---
 src/sink/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sink/mod.rs b/src/sink/mod.rs
index 1252e0d..3714833 100644
--- a/src/sink/mod.rs
+++ b/src/sink/mod.rs
@@ -184,6 +184,7 @@ where
                                 self.state.shutdown();
                                 return;
                             }
+                            break;
                         }
                     },
                     Valve::Closed => {
-- 
2.43.0


From 05594ecac79d21a307aecac4500c612523b7cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 02/54] fix: a filter announces the end of its stream once,
 after its last upstream

It forwarded every upstream's Shutdown, so stages behind a filter with
several upstreams counted them as their own and stopped early.
---
 src/filter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index e6ae4ac..7c995e9 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -81,13 +81,13 @@ pub trait Filter {
             match recv.next() {
                 None => attempts += 1,
                 Some(metric::Event::Shutdown) => {
-                    util::send(&mut chans, metric::Event::Shutdown);
                     total_shutdowns += 1;
                     if total_shutdowns >= sources.len() {
                         trace!(
                             "Received shutdown from every configured source: {:?}",
                             sources
                         );
+                        util::send(&mut chans, metric::Event::Shutdown);
                         return;
                     }
                 }
-- 
2.43.0


From 889962e8a97b01a29d7be75ca2a65f96d489b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 03/54] fix: send what a filter emitted before failing

It stayed behind and came out with the results of a later event, or was lost:
a script without tick() swallowed pulses until the next successful event.
---
 src/filter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 7c995e9..d1aea30 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -106,6 +106,9 @@ pub trait Filter {
                             );
                             let event = event_in_fe(fe);
                             util::send(&mut chans, event);
+                            for ev in events.drain(..) {
+                                util::send(&mut chans, ev)
+                            }
                         }
                     }
                 }
-- 
2.43.0


From ffdef97b4bc5c287d6ea7c85b7a8c90291d9e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 04/54] fix: delay filter distance must not overflow

A timestamp far in the past overflowed the subtraction: a panic that kills
the filter, or, in release builds, a wrapped distance that may be accepted.
---
 src/filter/delay_filter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/filter/delay_filter.rs b/src/filter/delay_filter.rs
index 2756070..712b5c3 100644
--- a/src/filter/delay_filter.rs
+++ b/src/filter/delay_filter.rs
@@ -49,6 +49,11 @@ impl DelayFilter {
     }
 }
 
+/// Absolute distance between two times, for any two times.
+fn distance(a: i64, b: i64) -> i128 {
+    (i128::from(a) - i128::from(b)).abs()
+}
+
 impl filter::Filter for DelayFilter {
     fn process(
         &mut self,
@@ -57,7 +62,7 @@ impl filter::Filter for DelayFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Telemetry(telem) => {
-                if (telem.timestamp - time::now()).abs() < self.tolerance {
+                if distance(telem.timestamp, time::now()) < i128::from(self.tolerance) {
                     DELAY_TELEM_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Telemetry(telem));
                 } else {
@@ -65,7 +70,7 @@ impl filter::Filter for DelayFilter {
                 }
             }
             metric::Event::Log(log) => {
-                if (log.time - time::now()).abs() < self.tolerance {
+                if distance(log.time, time::now()) < i128::from(self.tolerance) {
                     DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Log(log));
                 } else {
-- 
2.43.0


From 5a50a22be77a50f17e210ae08e58dc253cdfa262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 05/54] fix: flush boundary filter passes on events that carry
 no time

Raw events were silently dropped.
---
 src/filter/flush_boundary_filter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 8e3b634..7aa3c55 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -84,6 +84,8 @@ impl filter::Filter for FlushBoundaryFilter {
                         self.holds.insert(idx, hold)
                     }
                 }
+            } else {
+                res.push(event);
             }
         }
         Ok(())
-- 
2.43.0


From 90d5c7b2dfdb4cafa28322d02bab8e743d85df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 06/54] fix: release what the flush boundary filter holds when
 its stream ends

Events still held at shutdown were lost.
---
 src/filter/flush_boundary_filter.rs |  6 ++++++
 src/filter/mod.rs                   | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 7aa3c55..8752ce4 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -90,4 +90,10 @@ impl filter::Filter for FlushBoundaryFilter {
         }
         Ok(())
     }
+
+    fn shutdown(&mut self, res: &mut Vec<metric::Event>) {
+        for mut hold in self.holds.drain(..) {
+            res.append(&mut hold.events);
+        }
+    }
 }
diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index d1aea30..b864b85 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -61,6 +61,12 @@ pub trait Filter {
         res: &mut Vec<metric::Event>,
     ) -> Result<(), FilterError>;
 
+    /// Release any events the filter still holds back
+    ///
+    /// Called once by `Filter::run`, after every source has shut down and
+    /// before the filter announces its own shutdown.
+    fn shutdown(&mut self, _res: &mut Vec<metric::Event>) {}
+
     /// Run the Filter
     ///
     /// It is not expected that most Filters will re-implement this. If this is
@@ -87,6 +93,10 @@ pub trait Filter {
                             "Received shutdown from every configured source: {:?}",
                             sources
                         );
+                        self.shutdown(&mut events);
+                        for ev in events.drain(..) {
+                            util::send(&mut chans, ev)
+                        }
                         util::send(&mut chans, metric::Event::Shutdown);
                         return;
                     }
-- 
2.43.0


From e3555f4117aed866cfcfbcc986cb30b3ff922d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 07/54] fix: a script asking for an element that does not exist
 fails instead of killing the filter

---
 src/filter/programmable_filter.rs | 57 +++++++++++++++++++------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index cb1a120..ec254b9 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -13,12 +13,12 @@ struct Payload<'a> {
     path: &'a str,
 }
 
-fn idx(n: i64, top: usize) -> usize {
-    if n < 0 {
-        (top - (n.abs() as usize))
-    } else {
-        (n - 1) as usize
-    }
+/// Position of element `n` of `top` many: 1 is the first, -1 the last. Raises a
+/// Lua error if there is no such element.
+fn idx(state: &mut State, n: i64, top: usize) -> usize {
+    let i = if n < 0 { n + top as i64 } else { n - 1 };
+    state.arg_check(i >= 0 && i < top as i64, 2, "no such element");
+    i as usize
 }
 
 impl<'a> Payload<'a> {
@@ -61,7 +61,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         state.push_string(&(*pyld).metrics[idx].name);
         1
     }
@@ -70,7 +71,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].value);
         1
     }
@@ -79,7 +81,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_path(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].path);
         1
     }
@@ -88,7 +91,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_set_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         (*pyld).metrics[idx].name = state.check_string(3).into();
         0
     }
@@ -152,7 +156,8 @@ impl<'a> Payload<'a> {
     // unsafe extern "C" fn lua_metric_value(L: *mut lua_State) -> c_int {
     //     let mut state = State::from_ptr(L);
     //     let pyld = state.to_userdata(1) as *mut Payload;
-    //     let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+    //     let n = state.to_integer(2);
+    //     let idx = idx(&mut state, n, (*pyld).metrics.len());
     //     match (*pyld).metrics[idx].value() {
     //         Some(v) => {
     //             state.push_number(v);
@@ -168,7 +173,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).logs[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -192,7 +198,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_field_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].fields.get(&key) {
                 Some(v) => {
@@ -214,7 +221,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).metrics[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -238,7 +246,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).metrics[idx].insert_tag(key, val) {
@@ -266,7 +275,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].insert_tag(key, val) {
@@ -294,7 +304,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_field(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].fields.insert(key, val) {
@@ -322,7 +333,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 (*pyld).logs[idx].value = key;
@@ -339,7 +351,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).metrics[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -361,7 +374,8 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -384,7 +398,8 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
         let prcnt = state.to_number(2);
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let n = state.to_integer(2);
+        let idx = idx(&mut state, n, (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
                 state.push_number(v);
-- 
2.43.0


From 18d97481f28e7445a47093e9200910d9b59d639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 08/54] fix: a failed script call leaves nothing on the Lua
 stack

---
 src/filter/programmable_filter.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index ec254b9..6448b35 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -604,6 +604,7 @@ fn run_lua_func(
 
     state.get_global(func_name);
     if !state.is_fn(-1) {
+        state.pop(1);
         return Err(filter::FilterError::NoSuchFunction(func_name, fail));
     }
 
@@ -624,10 +625,12 @@ fn run_lua_func(
         Ok(())
     } else {
         let error = if let Some(error) = state.to_str(-1) {
-            error
+            error.to_owned()
         } else {
-            "While handling a lua error, lua error message was not a string"
+            "While handling a lua error, lua error message was not a string".to_owned()
         };
-        Err(filter::FilterError::LuaError(error.to_owned(), fail))
+        // the error value and its conversion to a string
+        state.pop(2);
+        Err(filter::FilterError::LuaError(error, fail))
     }
 }
-- 
2.43.0


From b3896ba2f4aacb200280cf77dc885d1fe420777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 09/54] fix: equal tags give equal identity however the map was
 built

---
 src/metric/mod.rs       | 12 +++++++++++-
 src/metric/telemetry.rs | 12 +++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/metric/mod.rs b/src/metric/mod.rs
index b918448..ddf49a3 100644
--- a/src/metric/mod.rs
+++ b/src/metric/mod.rs
@@ -19,6 +19,16 @@ use std::collections::{hash_map, HashSet};
 /// A common type in cernan, a map from string to string
 pub type TagMap = util::HashMap<String, String>;
 
+/// The pairs of a tagmap in the order of their keys
+///
+/// The iteration order of a map depends on how it was built, equal maps may well
+/// iterate differently.
+fn sorted_tags(tags: &TagMap) -> Vec<(&String, &String)> {
+    let mut pairs: Vec<(&String, &String)> = tags.iter().collect();
+    pairs.sort_unstable();
+    pairs
+}
+
 /// Compare two tagmaps
 ///
 /// K/Vs are compared lexographically unless the maps are of different length,
@@ -32,7 +42,7 @@ pub fn cmp_tagmap(
             if l.len() != r.len() {
                 l.len().partial_cmp(&r.len())
             } else {
-                l.iter().partial_cmp(r)
+                sorted_tags(l).partial_cmp(&sorted_tags(r))
             }
         }
         _ => Some(cmp::Ordering::Equal),
diff --git a/src/metric/telemetry.rs b/src/metric/telemetry.rs
index 94629a2..26856e5 100644
--- a/src/metric/telemetry.rs
+++ b/src/metric/telemetry.rs
@@ -1,4 +1,4 @@
-use crate::metric::{cmp_tagmap, TagIter, TagMap};
+use crate::metric::{cmp_tagmap, sorted_tags, TagIter, TagMap};
 use crate::time;
 use quantiles::ckms::CKMS;
 #[cfg(test)]
@@ -845,9 +845,8 @@ impl Telemetry {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
         if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
-                k.hash(&mut hasher);
-                v.hash(&mut hasher);
+            for pair in sorted_tags(tags) {
+                pair.hash(&mut hasher);
             }
         }
         self.kind().hash(&mut hasher);
@@ -864,9 +863,8 @@ impl Telemetry {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
         if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
-                k.hash(&mut hasher);
-                v.hash(&mut hasher);
+            for pair in sorted_tags(tags) {
+                pair.hash(&mut hasher);
             }
         }
         hasher.finish()
-- 
2.43.0


From 653c98e3d2c2e47f7f591eaee5fc45256c4772b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 10/54] fix: folding histograms of different bounds must not
 panic

---
 src/metric/telemetry.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/metric/telemetry.rs b/src/metric/telemetry.rs
index 26856e5..9ce604b 100644
--- a/src/metric/telemetry.rs
+++ b/src/metric/telemetry.rs
@@ -110,8 +110,13 @@ impl Add for Value {
                 Value::Set(y) => Value::Set(y),
                 Value::Sum(y) => Value::Sum(x.sum().unwrap_or(0.0) + y),
                 Value::Histogram(y) => {
-                    x += y;
-                    Value::Histogram(x)
+                    // Bins with different bounds do not add up
+                    if x.iter().map(|bin| bin.0).eq(y.iter().map(|bin| bin.0)) {
+                        x += y;
+                        Value::Histogram(x)
+                    } else {
+                        Value::Histogram(y)
+                    }
                 }
                 Value::Quantiles { ckms, sum } => Value::Quantiles { ckms, sum },
             },
-- 
2.43.0


From da41a403ceb406ab713f5914df9dcbe153994a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 11/54] fix: pad the gap since the last flush for every series,
 not only the last

---
 src/sink/wavefront.rs | 50 ++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 4e5e5c1..f4cf6fb 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -308,36 +308,46 @@ impl<'a> Iterator for Padding<'a> {
                         }
                     }
                 } else {
+                    // x is the last point of its sequence
                     self.emit_q.push(y);
-                    Some(x)
+                    Some(self.pad_last_seen(x))
                 }
             }
             (Some(x), None) => {
                 self.last_hash = x.hash();
                 // end of sequence
-                if x.skip_pad(self.pad_control) {
-                    return Some(x);
-                }
-                let flush_padded = self.flush_padded.contains(&x.hash());
-                if !flush_padded {
-                    if let Some(ts) = self.last_seen.get(&x.hash()) {
-                        if x.timestamp() > *ts {
-                            self.flush_padded.insert(x.hash());
-                            if (x.timestamp() - ts) / self.span > 1 {
-                                let sub_x =
-                                    x.clone().zero_at(x.timestamp().saturating_sub(1));
-                                let post_x = x.clone().zero_at(ts.saturating_add(1));
-                                self.emit_q.push(x);
-                                self.emit_q.push(sub_x);
-                                return Some(post_x);
-                            }
-                        }
+                Some(self.pad_last_seen(x))
+            }
+            (None, _) => None,
+        }
+    }
+}
+
+impl<'a> Padding<'a> {
+    /// Pad the gap between the point last seen in x's sequence, if any, and x,
+    /// which is the last point of its sequence. Returns the point to emit next,
+    /// the others are queued.
+    fn pad_last_seen(&mut self, x: Pad<'a>) -> Pad<'a> {
+        if x.skip_pad(self.pad_control) {
+            return x;
+        }
+        let flush_padded = self.flush_padded.contains(&x.hash());
+        if !flush_padded {
+            if let Some(ts) = self.last_seen.get(&x.hash()) {
+                if x.timestamp() > *ts {
+                    self.flush_padded.insert(x.hash());
+                    if (x.timestamp() - ts) / self.span > 1 {
+                        let sub_x =
+                            x.clone().zero_at(x.timestamp().saturating_sub(1));
+                        let post_x = x.clone().zero_at(ts.saturating_add(1));
+                        self.emit_q.push(x);
+                        self.emit_q.push(sub_x);
+                        return post_x;
                     }
                 }
-                Some(x)
             }
-            (None, _) => None,
         }
+        x
     }
 }
 
-- 
2.43.0


From 3059f33f298813c12f50dbb276bd8f6b16141a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:02 +0000
Subject: [PATCH 12/54] fix: a late point does not move a series' last seen
 time backwards

---
 src/sink/wavefront.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index f4cf6fb..a00ebcf 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -459,7 +459,8 @@ impl Wavefront {
             }
         }
         for (k, v) in tmp_last_seen {
-            last_seen.insert(k, v);
+            let seen = last_seen.entry(k).or_insert(v);
+            *seen = cmp::max(*seen, v);
         }
         self.aggrs = aggrs;
         self.aggrs.reset();
-- 
2.43.0


From ecdde3f0f686bbf715eef0bb3484b7e7d28eedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 13/54] fix: zero padding of a histogram keeps the histogram's
 bounds

---
 src/sink/wavefront.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index a00ebcf..7302320 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -415,13 +415,19 @@ impl Wavefront {
 
             match pad {
                 Pad::Zero(value, ts) => {
-                    let zero = value
-                        .clone()
-                        .thaw()
-                        .value(0.0)
-                        .harden()
-                        .unwrap()
-                        .timestamp(ts);
+                    let mut zero = value.clone().thaw().value(0.0);
+                    // a histogram's zero carries the histogram's own bounds
+                    if let Some(bins) = value.bins() {
+                        use quantiles::histogram::Bound;
+                        let bounds = bins
+                            .filter_map(|&(bound, _)| match bound {
+                                Bound::Finite(bnd) => Some(bnd),
+                                Bound::PosInf => None,
+                            })
+                            .collect();
+                        zero = zero.bounds(bounds);
+                    }
+                    let zero = zero.harden().unwrap().timestamp(ts);
                     self.fmt_val(
                         &zero,
                         &mut time_cache,
-- 
2.43.0


From 36a708b78813b00426ece1af15120976c7e60583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 14/54] fix: points with extreme times must not overflow the
 wavefront sink's arithmetic

---
 src/sink/wavefront.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 7302320..1be275c 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -153,6 +153,16 @@ fn fmt_tags(mut iter: TagIter, s: &mut String) {
     }
 }
 
+/// Absolute distance between two times, for any two times.
+fn distance(a: i64, b: i64) -> i128 {
+    (i128::from(a) - i128::from(b)).abs()
+}
+
+/// Is the gap between two times more than one span wide?
+fn wide(a: i64, b: i64, span: i64) -> bool {
+    distance(a, b) / i128::from(span) > 1
+}
+
 #[derive(Clone, Debug)]
 enum Pad<'a> {
     Zero(&'a Telemetry, i64),
@@ -261,7 +271,7 @@ impl<'a> Iterator for Padding<'a> {
                         if let Some(ts) = self.last_seen.get(&x.hash()) {
                             if x.timestamp() > *ts {
                                 self.flush_padded.insert(x.hash());
-                                if (x.timestamp() - ts) / self.span > 1 {
+                                if wide(x.timestamp(), *ts, self.span) {
                                     let sub_x = x
                                         .clone()
                                         .zero_at(x.timestamp().saturating_sub(1));
@@ -278,7 +288,7 @@ impl<'a> Iterator for Padding<'a> {
                             }
                         }
                     }
-                    match (x.timestamp() - y.timestamp()).abs() / self.span {
+                    match distance(x.timestamp(), y.timestamp()) / i128::from(self.span) {
                         0 | 1 => {
                             // In this case the next point, y, is within the
                             // span configured by the user. We stash it into
@@ -336,7 +346,7 @@ impl<'a> Padding<'a> {
             if let Some(ts) = self.last_seen.get(&x.hash()) {
                 if x.timestamp() > *ts {
                     self.flush_padded.insert(x.hash());
-                    if (x.timestamp() - ts) / self.span > 1 {
+                    if wide(x.timestamp(), *ts, self.span) {
                         let sub_x =
                             x.clone().zero_at(x.timestamp().saturating_sub(1));
                         let post_x = x.clone().zero_at(ts.saturating_add(1));
@@ -436,11 +446,6 @@ impl Wavefront {
                     );
                 }
                 Pad::Telem(value) => {
-                    if value.persist {
-                        let new_val = value.clone();
-                        self.aggrs.add(new_val.timestamp(value.timestamp + 1));
-                    }
-
                     match value.kind() {
                         AggregationMethod::Histogram => {
                             WAVEFRONT_AGGR_HISTO.fetch_add(1, Ordering::Relaxed)
@@ -659,7 +664,7 @@ impl Sink<WavefrontConfig> for Wavefront {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            if distance(telem.timestamp, time::now()) <= i128::from(age_threshold) {
                 self.aggrs.add(telem);
             }
         } else {
-- 
2.43.0


From e4e7ad44691e312b493c7e4ba7d3fe5af8d3db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 15/54] fix: prometheus label values are escaped, label and
 metric names are valid

---
 src/sink/prometheus.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 023b8d9..db96531 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -448,9 +448,17 @@ fn write_kv<W>(k: &str, v: &str, s: &mut W) -> io::Result<()>
 where
     W: Write,
 {
-    s.write_all(k.as_bytes())?;
+    s.write_all(sanitize_label(k).as_bytes())?;
     s.write_all(b"=\"")?;
-    s.write_all(v.as_bytes())?;
+    // Backslash, double-quote and line feed must be escaped in label values
+    for c in v.as_bytes() {
+        match *c {
+            b'\\' => s.write_all(b"\\\\")?,
+            b'"' => s.write_all(b"\\\"")?,
+            b'\n' => s.write_all(b"\\n")?,
+            c => s.write_all(&[c])?,
+        }
+    }
     s.write_all(b"\"")
 }
 
@@ -618,6 +626,10 @@ where
 fn sanitize(name: &str) -> String {
     let name: String = name.to_string();
     let mut new_name: Vec<u8> = Vec::with_capacity(128);
+    // names do not start with a digit
+    if name.as_bytes().first().map_or(false, u8::is_ascii_digit) {
+        new_name.push(b'_');
+    }
     for c in name.as_bytes() {
         match *c {
             b'a'...b'z' | b'A'...b'Z' | b'0'...b'9' | b':' | b'_' => new_name.push(*c),
@@ -627,6 +639,11 @@ fn sanitize(name: &str) -> String {
     String::from_utf8(new_name).unwrap()
 }
 
+/// Sanitize a tag's key into a label name, which is a name without colons
+fn sanitize_label(key: &str) -> String {
+    sanitize(key).replace(':', "_")
+}
+
 impl Sink<PrometheusConfig> for Prometheus {
     fn init(config: PrometheusConfig) -> Self {
         let aggrs = PrometheusAggr::new(config.capacity_in_seconds);
-- 
2.43.0


From 49bb0325f4465fc5104c123a4282f3f5a1e25eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 16/54] fix: prometheus summaries count every sample of a point

---
 src/sink/prometheus.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index db96531..d53948e 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -158,14 +158,16 @@ impl Accumulator {
             } => {
                 use std::u64;
                 assert_eq!(telem.kind(), AggregationMethod::Summarize);
+                // A point may carry several samples
+                let total = telem.count() as u64;
                 // u64::wrapping_add makes a new u64. We need this to be
                 // in-place. Oops!
-                if (u64::MAX - *count) <= 1 {
-                    *count = 1;
+                if (u64::MAX - *count) <= total {
+                    *count = total;
                 } else {
-                    *count += 1;
+                    *count += total;
                 }
-                let val = telem.query(1.0).unwrap();
+                let val = telem.samples_sum().unwrap_or(0.0);
                 // There's no wrapping_add for f64. Since it's rude to crash
                 // cernan because we've been summing for too long we knock
                 // together our own wrap.
@@ -294,11 +296,12 @@ impl PrometheusAggr {
                     | AggregationMethod::Histogram => Accumulator::Perpetual(telem),
                     AggregationMethod::Summarize => {
                         let mut samples = Vec::new();
-                        let sum = telem.query(1.0).unwrap();
+                        let sum = telem.samples_sum().unwrap_or(0.0);
+                        let count = telem.count() as u64;
                         samples.push(telem);
                         Accumulator::Windowed {
                             cap: self.capacity_in_seconds,
-                            count: 1,
+                            count,
                             sum,
                             samples,
                         }
-- 
2.43.0


From b25704bc89a4294d5bc6ab5084519e180b588c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 17/54] fix: points with extreme times must not overflow the
 prometheus sink's arithmetic

---
 src/sink/prometheus.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index d53948e..4de01b6 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -92,6 +92,11 @@ impl Default for PrometheusConfig {
     }
 }
 
+/// Absolute distance between two times, for any two times.
+fn distance(a: i64, b: i64) -> i128 {
+    (i128::from(a) - i128::from(b)).abs()
+}
+
 #[derive(Clone, Debug)]
 enum Accumulator {
     Perpetual(Telemetry),
@@ -135,7 +140,7 @@ impl Accumulator {
                 let mut purged = 0;
                 let mut i = 0;
                 while i != samples.len() {
-                    if (samples[i].timestamp - time::now()).abs() > (cap as i64) {
+                    if distance(samples[i].timestamp, time::now()) > cap as i128 {
                         samples.remove(i);
                         purged += 1;
                     } else {
@@ -680,7 +685,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            if distance(telem.timestamp, time::now()) <= i128::from(age_threshold) {
                 self.aggrs.lock().unwrap().insert(telem);
             }
         } else {
-- 
2.43.0


From 132324710f7d4f11f92f5403a4b33fb6b4233180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 18/54] fix: prometheus label names are written as given again

---
 src/sink/prometheus.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 4de01b6..653b7c9 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -456,7 +456,7 @@ fn write_kv<W>(k: &str, v: &str, s: &mut W) -> io::Result<()>
 where
     W: Write,
 {
-    s.write_all(sanitize_label(k).as_bytes())?;
+    s.write_all(k.as_bytes())?;
     s.write_all(b"=\"")?;
     // Backslash, double-quote and line feed must be escaped in label values
     for c in v.as_bytes() {
@@ -647,11 +647,6 @@ fn sanitize(name: &str) -> String {
     String::from_utf8(new_name).unwrap()
 }
 
-/// Sanitize a tag's key into a label name, which is a name without colons
-fn sanitize_label(key: &str) -> String {
-    sanitize(key).replace(':', "_")
-}
-
 impl Sink<PrometheusConfig> for Prometheus {
     fn init(config: PrometheusConfig) -> Self {
         let aggrs = PrometheusAggr::new(config.capacity_in_seconds);
-- 
2.43.0


From db1520804db28b5321720b4f4c0a30194ae3095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 19/54] fix: names that are one name to prometheus share an
 accumulator

---
 src/sink/prometheus.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 653b7c9..d7a9073 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -243,7 +243,7 @@ impl PrometheusAggr {
     /// Telemetry
     #[cfg(test)]
     fn find_match(&self, telem: &Telemetry) -> Option<Telemetry> {
-        if let Some(accum) = self.data.get(&telem.name) {
+        if let Some(accum) = self.data.get(&sanitize(&telem.name)) {
             match *accum {
                 Accumulator::Perpetual(ref t) => Some(t.clone()),
                 Accumulator::Windowed {
@@ -284,7 +284,8 @@ impl PrometheusAggr {
     /// end, this function returns False if a Telemetry is inserted that differs
     /// only in its aggregation method from a Telemetry stored previously.
     fn insert(&mut self, telem: Telemetry) -> bool {
-        let entry: Entry<String, Accumulator> = self.data.entry(telem.name.clone());
+        // Names that are the same to Prometheus share an accumulator
+        let entry: Entry<String, Accumulator> = self.data.entry(sanitize(&telem.name));
         match entry {
             Entry::Occupied(mut oe) => {
                 let prev = oe.get_mut();
-- 
2.43.0


From dcf1738e671dffc4ac0f2e64f4cbb1684558b074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 20/54] fix: keep the pieces of a length prefix that arrives in
 parts and accept empty payloads

---
 src/source/nonblocking.rs | 48 ++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index 6257d96..eb5acdf 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -1,6 +1,6 @@
 //! Handy interfaces for nonblocking streams.
 
-use byteorder::{BigEndian, ReadBytesExt};
+use byteorder::{BigEndian, ByteOrder};
 use mio;
 use std::io::{Read, Write};
 use std::{io, mem};
@@ -75,6 +75,12 @@ pub struct BufferedPayload {
     /// off the underlying stream as a big-endian u32.
     payload_size: Option<usize>,
 
+    /// Bytes of the length prefix, which may arrive in pieces.
+    length: [u8; 4],
+
+    /// Position in the length prefix receiving.
+    length_pos: usize,
+
     /// The maximum allowable payload size. If a payload_size comes in over the
     /// wire that is greater than this limit we close the connection.
     max_payload_size: usize,
@@ -94,6 +100,8 @@ impl BufferedPayload {
     pub fn new(stream: mio::net::TcpStream, max_payload_size: usize) -> Self {
         BufferedPayload {
             payload_size: None,
+            length: [0; 4],
+            length_pos: 0,
             max_payload_size: max_payload_size,
             payload_pos: 0,
             payload: Vec::new(),
@@ -128,10 +136,19 @@ impl BufferedPayload {
 
     /// Reads the payload's length from the wire, caching the result.
     ///
-    /// If a cached value already exists, this function noops.
+    /// If a cached value already exists, this function noops. If there isn't
+    /// enough data yet what has been read so far is kept for the next call.
     fn read_length(&mut self) -> Result<(), PayloadErr> {
         if self.payload_size.is_none() {
-            self.payload_size = Some(self.buffer.read_u32::<BigEndian>()? as usize);
+            while self.length_pos < self.length.len() {
+                match self.buffer.read(&mut self.length[self.length_pos..]) {
+                    Ok(0) => return Err(PayloadErr::EOF),
+                    Ok(bytes_read) => self.length_pos += bytes_read,
+                    Err(e) => return Err(e.into()),
+                }
+            }
+            self.length_pos = 0;
+            self.payload_size = Some(BigEndian::read_u32(&self.length) as usize);
         };
         Ok(())
     }
@@ -149,30 +166,25 @@ impl BufferedPayload {
             self.payload.resize(payload_size, 0);
         }
 
-        loop {
+        while self.payload_pos < payload_size {
             match self
                 .buffer
                 .read(&mut self.payload[self.payload_pos..payload_size])
             {
                 Ok(0) => return Err(PayloadErr::EOF),
 
-                Ok(bytes_read) if (self.payload_pos + bytes_read) == payload_size => {
-                    // We successfully pulled a payload off the wire.
-                    // Reset bytes remaining for the next payload.
-                    self.payload_size = None;
-                    self.payload_pos = 0;
-                    return Ok(());
-                }
-
-                Ok(bytes_read) => {
-                    // We read some data, but not yet enough.
-                    // Store the difference and try again later.
-                    self.payload_pos += bytes_read;
-                    continue;
-                }
+                // If this is not yet enough we store the difference and try
+                // again later.
+                Ok(bytes_read) => self.payload_pos += bytes_read,
 
                 Err(e) => return Err(e.into()),
             }
         }
+
+        // We successfully pulled a payload, possibly an empty one, off the wire.
+        // Reset bytes remaining for the next payload.
+        self.payload_size = None;
+        self.payload_pos = 0;
+        Ok(())
     }
 }
-- 
2.43.0


From 4e57bc50a054baa405c8d7e1852c93e77d59ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 21/54] fix: a stream handler that panics no longer takes its
 source's shutdown with it

---
 src/thread.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/thread.rs b/src/thread.rs
index f3ace3a..7721100 100644
--- a/src/thread.rs
+++ b/src/thread.rs
@@ -3,6 +3,7 @@ use crate::constants;
 use crate::util;
 use mio;
 use std::option;
+use std::panic;
 use std::sync;
 use std::thread;
 
@@ -104,7 +105,11 @@ impl ThreadPool {
         let joinable_arc = self.joinable.clone();
         let thread_event_readiness = self.thread_event_readiness.clone();
         let handler = spawn(move |poller| {
-            f(poller);
+            // A thread which panics is done like any other: it is to be joined and
+            // must not take the pool's owner down with it.
+            if panic::catch_unwind(panic::AssertUnwindSafe(|| f(poller))).is_err() {
+                error!("Thread {} of the pool panicked!", id);
+            }
 
             let mut joinable = joinable_arc.lock().unwrap();
             joinable.push(id);
-- 
2.43.0


From 366c20ddb5dcfe882da7e62df0ce246f16314db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 22/54] fix: graphite lines survive segmentation, bad lines
 stay apart and handlers end with their connection

---
 src/source/graphite.rs | 88 +++++++++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 27 deletions(-)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 9ec883c..506ce49 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -6,7 +6,7 @@ use crate::util;
 use crate::util::send;
 use mio;
 use std::io::prelude::*;
-use std::io::BufReader;
+use std::io::{BufReader, ErrorKind};
 use std::str;
 use std::sync;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -62,47 +62,55 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut res = Vec::new();
         let mut line_reader = BufReader::new(stream);
+        let mut streaming = true;
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
 
-        loop {
+        while streaming {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
                 Err(e) => panic!("Failed during poll {:?}", e),
                 Ok(_num_events) => {
                     for event in events {
                         match event.token() {
-                            constants::SYSTEM => return,
+                            constants::SYSTEM => {
+                                streaming = false;
+                                break;
+                            }
                             _stream_token => {
-                                while let Ok(len) = line_reader.read_line(&mut line) {
-                                    if len > 0 {
-                                        if parse_graphite(
-                                            &line,
-                                            &mut res,
-                                            &basic_metric,
-                                        ) {
-                                            assert!(!res.is_empty());
-                                            GRAPHITE_GOOD_PACKET
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            GRAPHITE_TELEM
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            for m in res.drain(..) {
-                                                send(
+                                while streaming {
+                                    // A line may arrive in pieces, which may
+                                    // split characters. What has come so far
+                                    // stays in `line` if there is no more yet.
+                                    match line_reader.read_until(b'\n', &mut line) {
+                                        Ok(_) => {
+                                            // Client went away unless the line is
+                                            // complete.
+                                            streaming = line.ends_with(b"\n");
+                                            if !line.is_empty() {
+                                                handle_line(
                                                     &mut chans,
-                                                    metric::Event::Telemetry(m),
+                                                    &line,
+                                                    &mut res,
+                                                    &basic_metric,
                                                 );
+                                                line.clear();
                                             }
-                                            line.clear();
-                                        } else {
-                                            GRAPHITE_BAD_PACKET
-                                                .fetch_add(1, Ordering::Relaxed);
-                                            error!("bad packet: {:?}", line);
-                                            line.clear();
                                         }
-                                    } else {
-                                        break;
+                                        Err(ref e)
+                                            if e.kind() == ErrorKind::WouldBlock =>
+                                        {
+                                            break;
+                                        }
+                                        Err(e) => {
+                                            error!(
+                                                "Failed to read graphite stream: {:?}",
+                                                e
+                                            );
+                                            streaming = false;
+                                        }
                                     }
                                 }
                             }
@@ -114,6 +122,32 @@ impl TCPStreamHandler for GraphiteStreamHandler {
     }
 }
 
+/// Forward the points of a single line, all of them or, if the line is
+/// malformed, none.
+fn handle_line(
+    chans: &mut util::Channel,
+    line: &[u8],
+    res: &mut Vec<metric::Telemetry>,
+    basic_metric: &sync::Arc<Option<metric::Telemetry>>,
+) {
+    res.clear();
+    let parsed = match str::from_utf8(line) {
+        Ok(line) => parse_graphite(line, res, basic_metric),
+        Err(_) => false,
+    };
+    if parsed {
+        assert!(!res.is_empty());
+        GRAPHITE_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);
+        GRAPHITE_TELEM.fetch_add(1, Ordering::Relaxed);
+        for m in res.drain(..) {
+            send(chans, metric::Event::Telemetry(m));
+        }
+    } else {
+        GRAPHITE_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
+        error!("bad packet: {:?}", String::from_utf8_lossy(line));
+    }
+}
+
 /// Graphite protocol source
 ///
 /// This source produces `metric::Telemetry` from the graphite protocol.
-- 
2.43.0


From eae9b537a8e13fb16e8cd78db9a0fa32b9526179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 23/54] fix: a bad statsd packet leaves nothing behind, is
 counted and none is cut short

---
 src/source/statsd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index aa8030f..9efd00f 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -96,6 +96,8 @@ impl Statsd {
         let mut metrics = Vec::new();
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
         loop {
+            // A bad packet may leave some behind
+            metrics.clear();
             match socket.recv_from(&mut buf) {
                 Ok((len, _)) => match str::from_utf8(&buf[..len]) {
                     Ok(val) => {
@@ -115,6 +117,7 @@ impl Statsd {
                         }
                     }
                     Err(e) => {
+                        STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                         error!("Payload not valid UTF-8: {:?}", e);
                     }
                 },
@@ -172,7 +175,8 @@ impl source::Source<StatsdConfig> for Statsd {
             }
         }
 
-        let mut buf = vec![0; 16_250];
+        // As large as a datagram may be, none is to be cut short
+        let mut buf = vec![0; 65_535];
         loop {
             let mut events = mio::Events::with_capacity(1024);
             match poller.poll(&mut events, None) {
-- 
2.43.0


From 5134cfcbcf17ac31922c5d6026a6700ebdacd530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 24/54] fix: refuse truncated or inconsistent avro publishes
 instead of panicking or aborting

---
 src/source/avro.rs | 128 +++++++++++++++++++++++++++++++++------------
 1 file changed, 95 insertions(+), 33 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index f84591a..b3014fb 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -7,6 +7,7 @@ use crate::util;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use mio;
 use serde_avro;
+use std::io;
 use std::io::{Cursor, Read};
 use std::net;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -31,7 +32,7 @@ pub struct Header {
     pub order_by: u64,
 }
 
-impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
+impl Header {
     // Parses payload headers from raw bytes.
     // All values assumed to be big endian.
     // Diagram below describes packet layout.
@@ -77,17 +78,17 @@ impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
     //    * Value Length - Length of Value data (max 65535)
     //    * Value - N Bytes of Value data, no encoding enforced (max 65535 bytes)
 
-    fn from(cursor: &'a mut Cursor<Vec<u8>>) -> Self {
-        let version = cursor.read_u32::<BigEndian>().unwrap();
-        let control = cursor.read_u32::<BigEndian>().unwrap();
-        let id = cursor.read_u64::<BigEndian>().unwrap();
-        let order_by = cursor.read_u64::<BigEndian>().unwrap();
-        Header {
+    fn read(cursor: &mut Cursor<Vec<u8>>) -> io::Result<Self> {
+        let version = cursor.read_u32::<BigEndian>()?;
+        let control = cursor.read_u32::<BigEndian>()?;
+        let id = cursor.read_u64::<BigEndian>()?;
+        let order_by = cursor.read_u64::<BigEndian>()?;
+        Ok(Header {
             version: version,
             control: control,
             id: id,
             order_by: order_by,
-        }
+        })
     }
 }
 
@@ -111,37 +112,98 @@ enum Payload {
     },
 }
 
-impl From<Vec<u8>> for Payload {
-    /// Transforms cursors of payloads into Payload objects.
-    fn from(vec: Vec<u8>) -> Payload {
-        let mut cursor = Cursor::new(vec);
-        let header: Header = (&mut cursor).into();
+/// Header, metadata and Avro container of a publish.
+type Parts = (Header, Option<Metadata>, Vec<u8>);
+
+/// Takes a publish apart, fails if it is cut short.
+fn read_parts(vec: Vec<u8>) -> io::Result<Parts> {
+    let mut cursor = Cursor::new(vec);
+    let header = Header::read(&mut cursor)?;
 
-        let metadata = if header.version < 2 {
+    let metadata = if header.version < 2 {
+        None
+    } else {
+        let num_kv = cursor.read_u8()?;
+        if num_kv < 1 {
             None
         } else {
-            let num_kv = cursor.read_u8().unwrap();
-            if num_kv < 1 {
-                None
-            } else {
-                let mut m: Metadata = Metadata::default();
-                for _ in 0..num_kv {
-                    let key_len = cursor.read_u8().unwrap();
-                    let mut key = vec![0; key_len as usize];
-                    cursor.read_exact(&mut key).unwrap();
-                    let val_len = cursor.read_u16::<BigEndian>().unwrap();
-                    let mut val = vec![0; val_len as usize];
-                    cursor.read_exact(&mut val).unwrap();
-                    m.insert(key, val);
-                }
-                Some(m)
+            let mut m: Metadata = Metadata::default();
+            for _ in 0..num_kv {
+                let key_len = cursor.read_u8()?;
+                let mut key = vec![0; key_len as usize];
+                cursor.read_exact(&mut key)?;
+                let val_len = cursor.read_u16::<BigEndian>()?;
+                let mut val = vec![0; val_len as usize];
+                cursor.read_exact(&mut val)?;
+                m.insert(key, val);
+            }
+            Some(m)
+        }
+    };
+
+    // Read the avro payload off the wire
+    let mut avro_blob = Vec::new();
+    cursor.read_to_end(&mut avro_blob)?;
+    Ok((header, metadata, avro_blob))
+}
+
+/// Checks that no length given in the container's header goes beyond its end.
+///
+/// The deserializer allocates whatever the header asks for.
+fn check_lengths(mut blob: &[u8]) -> io::Result<()> {
+    skip(&mut blob, 4)?; // magic
+    loop {
+        let mut entries = read_avro_long(&mut blob)?;
+        if entries == 0 {
+            return Ok(());
+        }
+        if entries < 0 {
+            // Followed by the size of the block
+            read_avro_long(&mut blob)?;
+            entries = entries.checked_neg().ok_or(io::ErrorKind::InvalidData)?;
+        }
+        for _ in 0..entries {
+            let key_len = read_avro_long(&mut blob)?;
+            skip(&mut blob, key_len)?;
+            let val_len = read_avro_long(&mut blob)?;
+            skip(&mut blob, val_len)?;
+        }
+    }
+}
+
+fn skip(blob: &mut &[u8], len: i64) -> io::Result<()> {
+    if len < 0 || len as u64 > blob.len() as u64 {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    *blob = &blob[len as usize..];
+    Ok(())
+}
+
+/// Reads a long as Avro has it, zig-zag and of variable length.
+fn read_avro_long(blob: &mut &[u8]) -> io::Result<i64> {
+    let mut num = 0u64;
+    for shift in 0..10 {
+        let byte = blob.read_u8()?;
+        num |= u64::from(byte & 0x7f) << (shift * 7);
+        if byte & 0x80 == 0 {
+            return Ok((num >> 1) as i64 ^ -((num & 1) as i64));
+        }
+    }
+    Err(io::ErrorKind::InvalidData.into())
+}
+
+impl From<Vec<u8>> for Payload {
+    /// Transforms cursors of payloads into Payload objects.
+    fn from(vec: Vec<u8>) -> Payload {
+        let (header, metadata, avro_blob) = match read_parts(vec) {
+            Ok(parts) => parts,
+            Err(e) => {
+                return Payload::Invalid(format!("Failed to read payload - {:?}.", e));
             }
         };
 
-        // Read the avro payload off the wire
-        let mut avro_blob = Vec::new();
-        if cursor.read_to_end(&mut avro_blob).is_err() {
-            return Payload::Invalid("Failed to read avro payload!".to_string());
+        if let Err(e) = check_lengths(&avro_blob[..]) {
+            return Payload::Invalid(format!("Failed to read container - {:?}.", e));
         }
 
         // TODO - Enforce configurable type naming requirements.
-- 
2.43.0


From c5c3a5b8e17e9ea02fec00d2fa88bf73ed72e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 25/54] fix: a synchronous publish waits for its own
 acknowledgement, and not beyond a shutdown

---
 src/source/avro.rs | 65 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index b3014fb..6c6f81d 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -11,6 +11,7 @@ use std::io;
 use std::io::{Cursor, Read};
 use std::net;
 use std::sync::atomic::{AtomicUsize, Ordering};
+use std::time;
 use uuid::Uuid;
 
 /// Total payloads processed.
@@ -242,6 +243,11 @@ impl TCPStreamHandler for AvroStreamHandler {
             match poller.poll(&mut events, None) {
                 Err(e) => panic!(format!("Failed during poll {:?}", e)),
                 Ok(_num_events) => {
+                    // Waiting for an acknowledgement would miss a shutdown
+                    // already reported behind the stream's event.
+                    streaming = !events
+                        .iter()
+                        .any(|event| event.token() == constants::SYSTEM);
                     for event in events {
                         match event.token() {
                             constants::SYSTEM => {
@@ -256,6 +262,8 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                 chans.clone(),
                                                 payload,
                                                 connection_id,
+                                                poller,
+                                                &mut streaming,
                                             );
                                             if handle_res.is_err() {
                                                 AVRO_PAYLOAD_PARSE_FAILURE_SUM
@@ -275,10 +283,22 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                     .expect(
                                                         "Failed to write response id!",
                                                     );
-                                                write_all(&stream, resp.get_ref())
-                                                    .expect(
-                                                        "Failed to write response!",
+                                                if let Err(e) = write_all(
+                                                    &stream,
+                                                    resp.get_ref(),
+                                                ) {
+                                                    error!(
+                                                        "Failed to write response: {:?}",
+                                                        e
                                                     );
+                                                    AVRO_PAYLOAD_IO_FAILURE_SUM
+                                                        .fetch_add(
+                                                            1,
+                                                            Ordering::Relaxed,
+                                                        );
+                                                    streaming = false;
+                                                    break;
+                                                }
                                                 trace!("Acked {:?}", id);
                                             }
                                         }
@@ -366,6 +386,8 @@ impl AvroStreamHandler {
         mut chans: util::Channel,
         payload: Vec<u8>,
         connection_id: Uuid,
+        poller: &mio::Poll,
+        streaming: &mut bool,
     ) -> Result<Option<u64>, PayloadErr> {
         match payload.into() {
             Payload::Valid {
@@ -374,8 +396,15 @@ impl AvroStreamHandler {
                 avro_blob,
             } => {
                 let ackbag = metric::global_ack_bag();
+                // What is waited for is this very publish, no other one of the
+                // connection.
+                let ack_id = if header.sync() {
+                    Uuid::new_v4()
+                } else {
+                    connection_id
+                };
                 if header.sync() {
-                    ackbag.prepare_wait(connection_id)
+                    ackbag.prepare_wait(ack_id)
                 }
 
                 util::send(
@@ -385,13 +414,23 @@ impl AvroStreamHandler {
                         encoding: metric::Encoding::Avro,
                         bytes: avro_blob,
                         metadata: metadata,
-                        connection_id: Some(connection_id),
+                        connection_id: Some(ack_id),
                     },
                 );
 
                 if header.sync() {
-                    ackbag.wait_for(connection_id);
-                    ackbag.remove(connection_id);
+                    ackbag.wait_for_callback(ack_id, |nap_time| {
+                        // Sleep, but not through a shutdown. What is readable
+                        // is read once the wait is over.
+                        if is_shutdown(poller, nap_time) {
+                            ackbag.remove(ack_id);
+                        }
+                    });
+                    if ackbag.props_for(ack_id).is_none() {
+                        *streaming = false;
+                        return Ok(None);
+                    }
+                    ackbag.remove(ack_id);
                     Ok(Some(header.id))
                 } else {
                     Ok(None)
@@ -406,6 +445,18 @@ impl AvroStreamHandler {
     }
 }
 
+/// Waits for an event, at most as long as given, and tells whether it is a
+/// request to shut down.
+fn is_shutdown(poller: &mio::Poll, timeout: time::Duration) -> bool {
+    let mut events = mio::Events::with_capacity(16);
+    match poller.poll(&mut events, Some(timeout)) {
+        Err(e) => panic!("Failed during poll {:?}", e),
+        Ok(_num_events) => events
+            .iter()
+            .any(|event| event.token() == constants::SYSTEM),
+    }
+}
+
 /// Source for Avro events.
 pub type Avro = TCP<AvroStreamHandler>;
 
-- 
2.43.0


From e10a7ad9daa68153492f12d338b8a72c69c50f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 26/54] fix: the native source uses the bin bounds it is given

---
 src/source/native.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/source/native.rs b/src/source/native.rs
index 6dcec1e..73382a1 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -137,8 +137,6 @@ impl NativeStreamHandler {
         buf: &mut Vec<u8>,
     ) -> Result<(), protobuf::ProtobufError> {
         match protobuf::parse_from_bytes::<Payload>(buf) {
-            // TODO we have to handle bin_bounds. We'll use samples to get
-            // the values of each bounds' counter.
             Ok(mut pyld) => {
                 for mut point in pyld.take_points().into_iter() {
                     let name: String = point.take_name();
@@ -164,7 +162,14 @@ impl NativeStreamHandler {
                             metric.kind(metric::AggregationMethod::Summarize)
                         }
                         AggregationMethod::BIN => {
-                            metric.kind(metric::AggregationMethod::Histogram)
+                            let metric =
+                                metric.kind(metric::AggregationMethod::Histogram);
+                            let bounds = point.take_bin_bounds();
+                            if bounds.is_empty() {
+                                metric
+                            } else {
+                                metric.bounds(bounds)
+                            }
                         }
                     };
                     metric = metric.persist(point.get_persisted());
-- 
2.43.0


From 918e31f97fdd1cc836ca246707e6b017834679af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 27/54] fix: the native sink notices failed writes, and writes
 nothing when it has nothing

---
 src/sink/native.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index 2cd6203..b1ef256 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -7,10 +7,9 @@ use crate::source::flushes_per_second;
 use crate::time;
 use byteorder::{BigEndian, ByteOrder};
 use protobuf::repeated::RepeatedField;
-use protobuf::stream::CodedOutputStream;
 use protobuf::Message;
 use std::collections::HashMap;
-use std::io::BufWriter;
+use std::io::Write;
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
@@ -115,6 +114,10 @@ impl Sink<NativeConfig> for Native {
     }
 
     fn flush(&mut self) {
+        if self.buffer.is_empty() {
+            return;
+        }
+
         let mut points = Vec::with_capacity(1024);
         let mut lines = Vec::with_capacity(1024);
 
@@ -143,7 +146,7 @@ impl Sink<NativeConfig> for Native {
                         meta.insert(k.to_string(), v.to_string());
                     }
                     telem.set_metadata(meta);
-                    telem.set_timestamp_ms(m.timestamp * 1000); // FIXME #166
+                    telem.set_timestamp_ms(m.timestamp.saturating_mul(1000)); // FIXME #166
                     telem.set_samples(m.samples());
                     // TODO set bin_bounds. What we do is set the counts for the
                     // bins as set_samples above, then bin_bounds comes from
@@ -163,7 +166,7 @@ impl Sink<NativeConfig> for Native {
                     ll.set_path(l.path);
                     ll.set_value(l.value);
                     ll.set_metadata(meta);
-                    ll.set_timestamp_ms(l.time * 1000); // FIXME #166
+                    ll.set_timestamp_ms(l.time.saturating_mul(1000)); // FIXME #166
 
                     lines.push(ll);
                 }
@@ -175,18 +178,16 @@ impl Sink<NativeConfig> for Native {
         pyld.set_points(RepeatedField::from_vec(points));
         pyld.set_lines(RepeatedField::from_vec(lines));
 
+        let mut frame = vec![0; 4];
+        pyld.write_to_vec(&mut frame)
+            .expect("could not serialize payload");
+        let pyld_len = (frame.len() - 4) as u32;
+        BigEndian::write_u32(&mut frame, pyld_len);
+
         loop {
             let mut delivery_failure = false;
             if let Some(ref mut stream) = self.stream {
-                let mut bufwrite = BufWriter::new(stream);
-                let mut stream = CodedOutputStream::new(&mut bufwrite);
-                let mut sz_buf = [0; 4];
-                let pyld_len = pyld.compute_size();
-                BigEndian::write_u32(&mut sz_buf, pyld_len);
-                stream.write_raw_bytes(&sz_buf).unwrap();
-                let res = pyld.write_to_with_cached_sizes(&mut stream);
-                if res.is_ok() {
-                    self.buffer.clear();
+                if stream.write_all(&frame).is_ok() {
                     return;
                 } else {
                     self.delivery_attempts = self.delivery_attempts.saturating_add(1);
-- 
2.43.0


From ae4e63a959b788386acb25ac02274ca5b919db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 28/54] fix: the native sink writes payloads that a native
 source takes

---
 src/sink/native.rs | 96 +++++++++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 31 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index b1ef256..a743566 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -6,13 +6,19 @@ use crate::sink::Sink;
 use crate::source::flushes_per_second;
 use crate::time;
 use byteorder::{BigEndian, ByteOrder};
-use protobuf::repeated::RepeatedField;
 use protobuf::Message;
 use std::collections::HashMap;
 use std::io::Write;
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
+/// Native sources refuse payloads larger than this.
+const MAX_PAYLOAD_BYTES: u32 = 1_048_576;
+
+/// What an item takes in a payload on top of its own bytes, at most: a field
+/// number and a length.
+const ITEM_OVERHEAD_BYTES: u32 = 6;
+
 /// The native sink
 ///
 /// This sink is the pair to the native source. The native source/sink use or
@@ -87,6 +93,47 @@ fn connect(host: &str, port: u16) -> Option<TcpStream> {
     }
 }
 
+/// Returns the payload that an item of the given size goes to, a new one if the
+/// last one would become too large.
+fn reserve<'a>(
+    payloads: &'a mut Vec<Payload>,
+    payload_bytes: &mut u32,
+    item_bytes: u32,
+) -> &'a mut Payload {
+    if *payload_bytes > 0
+        && payload_bytes.saturating_add(item_bytes) > MAX_PAYLOAD_BYTES
+    {
+        payloads.push(Payload::new());
+        *payload_bytes = 0;
+    }
+    *payload_bytes = payload_bytes.saturating_add(item_bytes);
+    let last = payloads.len() - 1;
+    &mut payloads[last]
+}
+
+impl Native {
+    /// Write a frame, for as long as it takes
+    fn write(&mut self, frame: &[u8]) {
+        loop {
+            let mut delivery_failure = false;
+            if let Some(ref mut stream) = self.stream {
+                if stream.write_all(frame).is_ok() {
+                    return;
+                } else {
+                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
+                    delivery_failure = true;
+                }
+            } else {
+                time::delay(self.delivery_attempts);
+                self.stream = connect(&self.host, self.port);
+            }
+            if delivery_failure {
+                self.stream = None
+            }
+        }
+    }
+}
+
 impl Sink<NativeConfig> for Native {
     fn init(config: NativeConfig) -> Self {
         let stream = connect(&config.host, config.port);
@@ -118,8 +165,8 @@ impl Sink<NativeConfig> for Native {
             return;
         }
 
-        let mut points = Vec::with_capacity(1024);
-        let mut lines = Vec::with_capacity(1024);
+        let mut payloads = vec![Payload::new()];
+        let mut payload_bytes = 0;
 
         for ev in self.buffer.drain(..) {
             match ev {
@@ -151,7 +198,10 @@ impl Sink<NativeConfig> for Native {
                     // TODO set bin_bounds. What we do is set the counts for the
                     // bins as set_samples above, then bin_bounds comes from
                     // elsewhere
-                    points.push(telem);
+                    let bytes = telem.compute_size() + ITEM_OVERHEAD_BYTES;
+                    reserve(&mut payloads, &mut payload_bytes, bytes)
+                        .mut_points()
+                        .push(telem);
                 }
                 metric::Event::Log(l) => {
                     let mut ll = LogLine::new();
@@ -168,38 +218,22 @@ impl Sink<NativeConfig> for Native {
                     ll.set_metadata(meta);
                     ll.set_timestamp_ms(l.time.saturating_mul(1000)); // FIXME #166
 
-                    lines.push(ll);
+                    let bytes = ll.compute_size() + ITEM_OVERHEAD_BYTES;
+                    reserve(&mut payloads, &mut payload_bytes, bytes)
+                        .mut_lines()
+                        .push(ll);
                 }
                 _ => {}
             }
         }
 
-        let mut pyld = Payload::new();
-        pyld.set_points(RepeatedField::from_vec(points));
-        pyld.set_lines(RepeatedField::from_vec(lines));
-
-        let mut frame = vec![0; 4];
-        pyld.write_to_vec(&mut frame)
-            .expect("could not serialize payload");
-        let pyld_len = (frame.len() - 4) as u32;
-        BigEndian::write_u32(&mut frame, pyld_len);
-
-        loop {
-            let mut delivery_failure = false;
-            if let Some(ref mut stream) = self.stream {
-                if stream.write_all(&frame).is_ok() {
-                    return;
-                } else {
-                    self.delivery_attempts = self.delivery_attempts.saturating_add(1);
-                    delivery_failure = true;
-                }
-            } else {
-                time::delay(self.delivery_attempts);
-                self.stream = connect(&self.host, self.port);
-            }
-            if delivery_failure {
-                self.stream = None
-            }
+        for pyld in payloads {
+            let mut frame = vec![0; 4];
+            pyld.write_to_vec(&mut frame)
+                .expect("could not serialize payload");
+            let pyld_len = (frame.len() - 4) as u32;
+            BigEndian::write_u32(&mut frame, pyld_len);
+            self.write(&frame);
         }
     }
 
-- 
2.43.0


From 609a375209d25698109138e5d05043f509e7818f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 29/54] fix: report self-telemetry once more when the internal
 source stops

---
 src/source/internal.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/source/internal.rs b/src/source/internal.rs
index 9a8ed7c..cc67ebf 100644
--- a/src/source/internal.rs
+++ b/src/source/internal.rs
@@ -118,11 +118,8 @@ impl source::Source<InternalConfig> for Internal {
                 // Internal source doesn't register any external evented sources.
                 // Any event must be a system event which, at the time of this writing,
                 // can only be a shutdown event.
-                Ok(num_events) if num_events > 0 => {
-                    util::send(&mut chans, metric::Event::Shutdown);
-                    return;
-                }
-                Ok(_) => {
+                // What was counted up to then is reported before we stop.
+                Ok(num_events) => {
                     if !chans.is_empty() {
                         atom_telem!(
                             "cernan.util.hopper.error.full",
@@ -448,6 +445,10 @@ impl source::Source<InternalConfig> for Internal {
                             // do nothing, intentionally
                         }
                     }
+                    if num_events > 0 {
+                        util::send(&mut chans, metric::Event::Shutdown);
+                        return;
+                    }
                 }
             }
         }
-- 
2.43.0


From af5c415ede9aadfb5acf6ae6e34e4e0614eb518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 30/54] fix: publish what queues hold on disk during shutdown

A hopper queue publishes what it has put on disk with a later send or
flush.  Nobody sends anything once the sources have stopped, so that the
last events of a queue that had spilled, and the Shutdown behind them,
were never seen by the filter or sink: the events were lost and the
process did not end.
---
 src/bin/cernan.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index fea9357..7455966 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -25,6 +25,8 @@ use std::collections::{HashMap, HashSet};
 use std::mem;
 use std::process;
 use std::str;
+use std::thread;
+use std::time::Duration;
 
 fn populate_forwards(
     mut top_level_forwards: Option<&mut HashSet<String>>,
@@ -780,7 +782,6 @@ fn main() {
     }
 
     drop(flush_sends);
-    drop(senders);
     cernan::source::FlushTimer::new(flush_channels, cernan::source::FlushTimerConfig)
         .run();
 
@@ -794,6 +795,16 @@ fn main() {
 
     signal.recv().unwrap();
 
+    // A queue that has spilled to disk publishes what it holds there with a
+    // later send. There may be none anymore once the sources are gone: see to
+    // it that all of it, and the Shutdown at its end, comes through.
+    cernan::thread::spawn(move |_poll| loop {
+        for snd in senders.values_mut() {
+            let _ = snd.flush();
+        }
+        thread::sleep(Duration::from_millis(10));
+    });
+
     // Shut down source to quiesce event generation.
     // During shutdown sources will propgate metric::Event::Shutdown
     // to all of its downstream consumers.
-- 
2.43.0


From e2fe8a51c9d99aa411e3ba89435228d01638817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 31/54] fix: end filters and sinks that nothing forwards to

They wait for Shutdown from upstream and have none, so that the process
never ended when one of them was configured.  A filter without any edges
made the start-up panic.
---
 src/bin/cernan.rs | 14 +++++++++++++-
 src/matrix.rs     | 10 +++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index 7455966..4fb1e84 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -20,6 +20,7 @@ use cernan::metric;
 use cernan::sink::Sink;
 use cernan::source::Source;
 use cernan::thread::Stoppable;
+use cernan::util;
 use chrono::Utc;
 use std::collections::{HashMap, HashSet};
 use std::mem;
@@ -346,6 +347,7 @@ fn main() {
     //
     if let Some(ref configs) = args.native_server_config {
         for (config_path, config) in configs {
+            config_topology.insert(config_path.clone(), config.forwards.clone());
             adjacency_matrix.add_edges(
                 &config_path.clone(),
                 config.forwards.clone(),
@@ -790,11 +792,18 @@ fn main() {
     });
 
     drop(args);
-    drop(config_topology);
     drop(receivers);
 
     signal.recv().unwrap();
 
+    let mut unfed: util::Channel = senders
+        .iter()
+        .filter(|&(id, _)| {
+            !config_topology.values().any(|forwards| forwards.contains(id))
+        })
+        .map(|(_, snd)| snd.clone())
+        .collect();
+
     // A queue that has spilled to disk publishes what it holds there with a
     // later send. There may be none anymore once the sources are gone: see to
     // it that all of it, and the Shutdown at its end, comes through.
@@ -813,6 +822,9 @@ fn main() {
         source_worker.shutdown();
     }
 
+    // Filters and sinks that nothing forwards to hear of it from us.
+    util::send(&mut unfed, metric::Event::Shutdown);
+
     join_all(sinks);
     join_all(filters);
 }
diff --git a/src/matrix.rs b/src/matrix.rs
index 79b081b..1d93e7f 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -81,11 +81,11 @@ impl<M: Clone + Debug> Adjacency<M> {
     where
         for<'r> F: FnMut(&'r (&String, &Option<M>)) -> bool,
     {
-        self.edges[id]
-            .iter()
-            .filter(f)
-            .map(|(k, _v)| k.clone())
-            .collect()
+        match self.edges.get(id) {
+            Some(map) => map.iter().filter(f).map(|(k, _v)| k.clone()).collect(),
+
+            None => Vec::new(),
+        }
     }
 
     /// Iterates over edge relations in the matrix.
-- 
2.43.0


From 74ca9afd9b97968eb871b7a90ce7d7f321dcaa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 32/54] fix: name file sources after their table, not their
 path

Two file sources with the same path went by the same name: the first was
told neither to stop nor waited for, and what only it forwards to never
ended.  A path also cannot tell them apart in the topology.
---
 src/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 235a549..1356411 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -820,12 +820,12 @@ fn parse_config_file(buffer: &str) -> Args {
 
         args.files = sources.get("files").map(|src| {
             let mut files = Vec::new();
-            for tbl in src.as_table().unwrap().values() {
+            for (name, tbl) in src.as_table().unwrap().iter() {
                 match tbl.get("path") {
                     Some(pth) => {
                         let mut fl = FileServerConfig::default();
                         fl.path = Some(Path::new(pth.as_str().unwrap()).to_path_buf());
-                        fl.config_path = Some(format!("sources.files.{}", pth));
+                        fl.config_path = Some(format!("sources.files.{}", name));
 
                         fl.forwards = tbl
                             .get("forwards")
-- 
2.43.0


From 03052f20020a4429be0f72f5c68f215e34a14487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 33/54] fix: refuse forwards of native sources and forwards to
 sources before start

A forward of a native source to an unknown stage, or of any stage to a
source, was noticed only once sinks, filters and other sources ran; the
process then left in their midst, with status 0.
---
 src/bin/cernan.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index 4fb1e84..50a3e8b 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -407,12 +407,12 @@ fn main() {
         }
     }
 
-    // Now we validate the topology. We search the outer keys and assert that
-    // for every forward there's another key in the map. If not, invalid.
+    // Now we validate the topology. We assert that for every forward there's a
+    // filter or sink to send to. If not, invalid.
     {
         for (key, forwards) in &config_topology {
             for forward in forwards {
-                if config_topology.get(forward).is_none() {
+                if senders.get(forward).is_none() {
                     error!(
                         "Unable to fulfill configured forward: {} => {}",
                         key, forward,
-- 
2.43.0


From 95319bed8991999bb5a4001bc0821ef3a9214a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 34/54] fix: hand out lines of files whole

A line read before its end was written came out in fragments, each of them
short of its last character.
---
 src/source/file/file_watcher.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index a486c0a..056e1f8 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -3,6 +3,7 @@ use std::fs;
 use std::io;
 use std::io::BufRead;
 use std::io::Seek;
+use std::mem;
 use std::os::unix::fs::MetadataExt;
 use std::path::PathBuf;
 
@@ -19,6 +20,8 @@ pub struct FileWatcher {
     file_id: Option<(u64, u64)>,
     previous_size: u64,
     reopen: bool,
+    /// What has been read of a line whose end is not there yet.
+    partial: Vec<u8>,
 }
 
 type Devno = u64;
@@ -36,6 +39,14 @@ fn file_id(path: &PathBuf) -> Option<FileId> {
     }
 }
 
+/// Hand out the line in `partial`
+fn take_line(partial: &mut Vec<u8>, buffer: &mut String) -> io::Result<usize> {
+    let line = String::from_utf8(mem::replace(partial, Vec::new()))
+        .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+    buffer.push_str(&line);
+    Ok(line.len())
+}
+
 impl FileWatcher {
     /// Create a new `FileWatcher`
     ///
@@ -56,6 +67,7 @@ impl FileWatcher {
                     file_id: Some((dev, ino)),
                     previous_size: 0,
                     reopen: false,
+                    partial: Vec::new(),
                 })
             }
             Err(e) => match e.kind() {
@@ -67,6 +79,7 @@ impl FileWatcher {
                             file_id: None,
                             previous_size: 0,
                             reopen: false,
+                            partial: Vec::new(),
                         }
                     };
                     Ok(fw)
@@ -115,7 +128,10 @@ impl FileWatcher {
     /// This function will attempt to read a new line from its file, blocking,
     /// up to some maximum but unspecified amount of time. `read_line` will open
     /// a new file handler at need, transparently to the caller.
-    pub fn read_line(&mut self, mut buffer: &mut String) -> io::Result<usize> {
+    ///
+    /// A line is handed out once its end has been written. What follows the
+    /// last line end of a file counts as a line when the file is rolled over.
+    pub fn read_line(&mut self, buffer: &mut String) -> io::Result<usize> {
         if self.reopen {
             self.open_at_start();
         }
@@ -146,6 +162,7 @@ impl FileWatcher {
             let current_size = reader.get_ref().metadata().unwrap().size();
             if self.previous_size > current_size {
                 assert!(reader.seek(io::SeekFrom::Start(0)).is_ok());
+                self.partial.clear();
                 report_full_telemetry(
                     "cernan.sources.file.truncation",
                     (self.previous_size - current_size) as f64,
@@ -158,17 +175,21 @@ impl FileWatcher {
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
-            match reader.read_line(&mut buffer) {
+            match reader.read_until(b'\n', &mut self.partial) {
                 Ok(0) => {
                     if file_id(&self.path) != self.file_id {
                         self.reopen = true;
+                        return take_line(&mut self.partial, buffer);
                     }
                     Ok(0)
                 }
-                Ok(sz) => {
-                    assert_eq!(sz, buffer.len());
-                    buffer.pop();
-                    Ok(buffer.len())
+                Ok(_) => {
+                    if self.partial.ends_with(b"\n") {
+                        self.partial.pop();
+                        take_line(&mut self.partial, buffer)
+                    } else {
+                        Ok(0)
+                    }
                 }
                 Err(e) => {
                     if let io::ErrorKind::NotFound = e.kind() {
-- 
2.43.0


From 7cc8a141eb9af0051c57c859813c7c02728d95bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 35/54] fix: read on after an empty line of a file

An empty line was taken for the end of the file: what follows waited for
the next poll, which is two seconds away when nothing else was read.
---
 src/source/file/file_watcher.rs | 38 ++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index 056e1f8..8ec2445 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -175,27 +175,31 @@ impl FileWatcher {
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
-            match reader.read_until(b'\n', &mut self.partial) {
-                Ok(0) => {
-                    if file_id(&self.path) != self.file_id {
-                        self.reopen = true;
-                        return take_line(&mut self.partial, buffer);
+            loop {
+                match reader.read_until(b'\n', &mut self.partial) {
+                    Ok(0) => {
+                        if file_id(&self.path) != self.file_id {
+                            self.reopen = true;
+                            return take_line(&mut self.partial, buffer);
+                        }
+                        return Ok(0);
                     }
-                    Ok(0)
-                }
-                Ok(_) => {
-                    if self.partial.ends_with(b"\n") {
+                    Ok(_) => {
+                        if !self.partial.ends_with(b"\n") {
+                            return Ok(0);
+                        }
                         self.partial.pop();
-                        take_line(&mut self.partial, buffer)
-                    } else {
-                        Ok(0)
+                        // Nothing in it: not the end of what there is to read.
+                        if !self.partial.is_empty() {
+                            return take_line(&mut self.partial, buffer);
+                        }
                     }
-                }
-                Err(e) => {
-                    if let io::ErrorKind::NotFound = e.kind() {
-                        self.reopen = true;
+                    Err(e) => {
+                        if let io::ErrorKind::NotFound = e.kind() {
+                            self.reopen = true;
+                        }
+                        return Err(e);
                     }
-                    Err(e)
                 }
             }
         } else {
-- 
2.43.0


From 7e8d159d14e7cb8472a9f208ba69259f3a833d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 36/54] fix: notice that a file is truncated before its first
 read

The watcher starts at the end of the file but with no size on record, so
that a truncation right then went unnoticed and what was written next was
skipped.
---
 src/source/file/file_watcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index 8ec2445..6eec6e8 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -65,7 +65,7 @@ impl FileWatcher {
                     path: path.clone(),
                     reader: Some(rdr),
                     file_id: Some((dev, ino)),
-                    previous_size: 0,
+                    previous_size: metadata.size(),
                     reopen: false,
                     partial: Vec::new(),
                 })
-- 
2.43.0


From 4561233351e20572fadc5bb52d015d97eb1d5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 37/54] fix: read a file that is recreated after its removal
 was noticed from its start

A roll-over that leaves the path empty for a moment, in which the source
polls, made it start at the end of the new file and skip what had been
written to it.
---
 src/source/file/file_server.rs  | 12 ++++++++++++
 src/source/file/file_watcher.rs | 16 ++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/source/file/file_server.rs b/src/source/file/file_server.rs
index 52ddc13..9629151 100644
--- a/src/source/file/file_server.rs
+++ b/src/source/file/file_server.rs
@@ -6,6 +6,7 @@ use crate::util;
 use crate::util::send;
 use glob::glob;
 use mio;
+use std::collections::HashSet;
 use std::mem;
 use std::path::PathBuf;
 use std::str;
@@ -80,6 +81,11 @@ impl source::Source<FileServerConfig> for FileServer {
         let mut fp_map: util::HashMap<PathBuf, FileWatcher> = Default::default();
         let mut fp_map_alt: util::HashMap<PathBuf, FileWatcher> = Default::default();
 
+        // Paths that were watched and whose files went away. What comes to be
+        // there next is read from its start, as it is on a roll-over that
+        // happens in one go.
+        let mut gone: HashSet<PathBuf> = HashSet::new();
+
         let mut backoff_cap: usize = 1;
         let mut lines = Vec::new();
         // Alright friends, how does this work?
@@ -96,6 +102,10 @@ impl source::Source<FileServerConfig> for FileServer {
                 .expect("Failed to read glob pattern")
             {
                 if let Ok(path) = entry {
+                    if gone.remove(&path) {
+                        fp_map.insert(path.clone(), FileWatcher::from_start(&path));
+                        continue;
+                    }
                     let entry = fp_map.entry(path.clone());
                     if let Ok(fw) = FileWatcher::new(&path) {
                         entry.or_insert(fw);
@@ -133,6 +143,8 @@ impl source::Source<FileServerConfig> for FileServer {
                 // the fp_map_alt and deallocate it.
                 if !watcher.dead() {
                     fp_map_alt.insert(path, watcher);
+                } else {
+                    gone.insert(path);
                 }
                 global_bytes_read = global_bytes_read.saturating_add(bytes_read);
             }
diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index 6eec6e8..a15009b 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -89,6 +89,22 @@ impl FileWatcher {
         }
     }
 
+    /// Create a new `FileWatcher` that reads all there is in the file
+    ///
+    /// This is for a path which has been watched and whose file went away.
+    pub fn from_start(path: &PathBuf) -> FileWatcher {
+        let mut watcher = FileWatcher {
+            path: path.clone(),
+            reader: None,
+            file_id: None,
+            previous_size: 0,
+            reopen: false,
+            partial: Vec::new(),
+        };
+        watcher.open_at_start();
+        watcher
+    }
+
     fn open_at_start(&mut self) {
         if let Ok(f) = fs::File::open(&self.path) {
             let metadata = f.metadata().unwrap(); // we _must_ be able to read the metadata
-- 
2.43.0


From 88d326cbccc0a00095fdc3b88ff0ee47974526f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 38/54] fix: read what is written to a file right before it is
 rolled over

---
 src/source/file/file_watcher.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index a15009b..222ce4d 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -191,14 +191,20 @@ impl FileWatcher {
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
+            let mut rolled = false;
             loop {
                 match reader.read_until(b'\n', &mut self.partial) {
                     Ok(0) => {
-                        if file_id(&self.path) != self.file_id {
+                        if rolled {
                             self.reopen = true;
                             return take_line(&mut self.partial, buffer);
                         }
-                        return Ok(0);
+                        if file_id(&self.path) == self.file_id {
+                            return Ok(0);
+                        }
+                        // The file may have been written to after the read and
+                        // before it was rolled over: look again.
+                        rolled = true;
                     }
                     Ok(_) => {
                         if !self.partial.ends_with(b"\n") {
-- 
2.43.0


From 904b4d88f1c21ec78f7c2213e8ee86b6a7951ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 39/54] fix: C26 a time beyond what a date can express no
 longer panics

Log lines and metrics take their times from the outside (native, graphite).
The console and Elasticsearch sinks and the JSON encoding filter died of one
that chrono cannot turn into a date.
---
 src/filter/json_encode_filter.rs |  7 ++-----
 src/sink/console.rs              |  6 ++----
 src/sink/elasticsearch.rs        | 10 +++-------
 src/time.rs                      | 17 +++++++++++++++++
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/filter/json_encode_filter.rs b/src/filter/json_encode_filter.rs
index 4fdf7ed..c469a03 100644
--- a/src/filter/json_encode_filter.rs
+++ b/src/filter/json_encode_filter.rs
@@ -10,9 +10,7 @@
 
 use crate::filter;
 use crate::metric;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time;
 use rand::random;
 use serde_json;
 use serde_json::map::Map;
@@ -72,8 +70,7 @@ impl filter::Filter for JSONEncodeFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Log(log) => {
-                let naive_time = NaiveDateTime::from_timestamp(log.time, 0);
-                let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+                let utc_time = time::date(log.time);
                 let metadata = json_to_object(json!({
                     "time": utc_time.to_rfc3339(),
                     "path": log.path.clone(),
diff --git a/src/sink/console.rs b/src/sink/console.rs
index 917427f..370515d 100644
--- a/src/sink/console.rs
+++ b/src/sink/console.rs
@@ -4,9 +4,8 @@ use crate::buckets::Buckets;
 use crate::metric::{AggregationMethod, LogLine, TagMap, Telemetry};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
+use crate::time;
 use chrono::offset::Utc;
-use chrono::DateTime;
 
 /// The 'console' sink exists for development convenience. The sink will
 /// aggregate according to [buckets](../buckets/struct.Buckets.html) method and
@@ -202,7 +201,6 @@ impl Sink<ConsoleConfig> for Console {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = time::date(time);
     format!("{}", utc_time.format("%Y-%m-%dT%H:%M:%S%.3fZ"))
 }
diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index a3d962a..7926199 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -3,9 +3,7 @@
 use crate::metric::{LogLine, TagMap};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time;
 use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
@@ -358,15 +356,13 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = time::date(time);
     format!("{}", utc_time.format("%+"))
 }
 
 #[inline]
 fn idx(prefix: &Option<String>, time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = time::date(time);
     match *prefix {
         Some(ref p) => format!("{}-{}", p, utc_time.format("%Y-%m-%d")),
         None => format!("{}", utc_time.format("%Y-%m-%d")),
diff --git a/src/time.rs b/src/time.rs
index 19ec2a8..d19991c 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -4,7 +4,9 @@
 //! for cernan and update it ourselves periodically. See `update_time` in this
 //! module for more details.
 
+use chrono::naive::{NaiveDateTime, MAX_DATE, MIN_DATE};
 use chrono::offset::Utc;
+use chrono::DateTime;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::{thread, time};
 
@@ -28,6 +30,21 @@ pub fn update_time() {
     }
 }
 
+/// The date of a time in epoch seconds
+///
+/// Times come from the outside and may lie beyond what a date can express: such
+/// become the first or last second that can.
+pub fn date(time: i64) -> DateTime<Utc> {
+    let naive = NaiveDateTime::from_timestamp_opt(time, 0).unwrap_or_else(|| {
+        if time < 0 {
+            MIN_DATE.and_hms(0, 0, 0)
+        } else {
+            MAX_DATE.and_hms(23, 59, 59)
+        }
+    });
+    DateTime::from_utc(naive, Utc)
+}
+
 /// Pause a thread of execution
 ///
 /// This function pauses the thread of execution for a fixed number of
-- 
2.43.0


From d9f7fbb670599b14db2fd4f8d3adcf18b1e92b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 40/54] fix: C29 a reply about a document that was not sent no
 longer panics

---
 src/sink/elasticsearch.rs | 43 ++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index 7926199..a88a03c 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -8,7 +8,6 @@ use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
 use elastic::prelude::*;
-use std::cmp;
 use std::error::Error;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid;
@@ -153,6 +152,18 @@ impl Elasticsearch {
             buffer.push('\n');
         }
     }
+
+    /// Where in the buffer the line with this id is. Elasticsearch is not
+    /// trusted to speak of our lines only.
+    fn position(&self, id: &str) -> Option<usize> {
+        let idx = uuid::Uuid::parse_str(id)
+            .ok()
+            .and_then(|uuid| self.buffer.iter().position(|line| line.uuid == uuid));
+        if idx.is_none() {
+            error!("Elasticsearch replied about an unknown document: {:?}", id);
+        }
+        idx
+    }
 }
 
 impl Sink<ElasticsearchConfig> for Elasticsearch {
@@ -196,33 +207,19 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
                     for item in bulk.iter() {
                         match item {
                             Ok(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
-                                    }
-                                }
+                                let idx = match self.position(item.id()) {
+                                    Some(idx) => idx,
+                                    None => continue,
+                                };
                                 self.buffer.remove(idx);
                                 ELASTIC_RECORDS_TOTAL_DELIVERED
                                     .fetch_add(1, Ordering::Relaxed);
                             }
                             Err(item) => {
-                                let uuid = uuid::Uuid::parse_str(item.id())
-                                    .expect("catastrophic error, TID not a UUID");
-                                let mut idx = 0;
-                                for i in 0..self.buffer.len() {
-                                    match self.buffer[i].uuid.cmp(&uuid) {
-                                        cmp::Ordering::Equal => {
-                                            break;
-                                        }
-                                        _ => idx += 1,
-                                    }
-                                }
+                                let idx = match self.position(item.id()) {
+                                    Some(idx) => idx,
+                                    None => continue,
+                                };
                                 self.buffer[idx].attempts += 1;
                                 if self.buffer[idx].attempts
                                     > self.delivery_attempt_limit
-- 
2.43.0


From d10bc94e8e69eb1b6c8d8577afa6619bb646d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 41/54] fix: C29 a line is tried as often as
 delivery_attempt_limit says

It was tried once more, and with a limit of 255 the count overflowed.
---
 src/sink/elasticsearch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index a88a03c..25a648e 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -222,7 +222,7 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
                                 };
                                 self.buffer[idx].attempts += 1;
                                 if self.buffer[idx].attempts
-                                    > self.delivery_attempt_limit
+                                    >= self.delivery_attempt_limit
                                 {
                                     self.buffer.remove(idx);
                                 }
-- 
2.43.0


From 00787f793e5bd2b0a532ef9188d530fa5f7df6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 42/54] fix: C28 influxdb.delivery_attempts counts delivery
 attempts

It was raised by the level of the backoff instead, and so not at all while all
went well.
---
 src/sink/influxdb.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index b694b35..8a26bd7 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -241,8 +241,7 @@ impl Sink<InfluxDBConfig> for InfluxDB {
             // delivery_attempts_0 waits. The idea is that a failure that
             // happens to succeed may succeed against a degraded system; we
             // should not assume full health.
-            INFLUX_DELIVERY_ATTEMPTS
-                .fetch_add(self.delivery_attempts as usize, Ordering::Relaxed);
+            INFLUX_DELIVERY_ATTEMPTS.fetch_add(1, Ordering::Relaxed);
             time::delay(self.delivery_attempts);
 
             match self
-- 
2.43.0


From 1a7c9756f59de4f83997fb332da773f1691d054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 43/54] fix: C28 wait between attempts to reach an InfluxDB
 that is not there

Only refusals made the next attempt wait; a broken or refused connection was
tried again without a pause.
---
 src/sink/influxdb.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index 8a26bd7..a39f15f 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -251,7 +251,11 @@ impl Sink<InfluxDBConfig> for InfluxDB {
                 .body(buffer.clone())
                 .send()
             {
-                Err(e) => debug!("hyper error doing POST: {:?}", e),
+                Err(e) => {
+                    debug!("hyper error doing POST: {:?}", e);
+                    self.delivery_attempts =
+                        self.delivery_attempts.saturating_add(1);
+                }
                 Ok(resp) => {
                     // https://docs.influxdata.com/influxdb/v1.
                     // 2/guides/writing_data/#http-response-summary
-- 
2.43.0


From cf8aecc4bac27358f2cfb341074ae53283da1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 44/54] fix: C28 escape names and tags for InfluxDB

A blank, comma or equals sign in a name or tag made InfluxDB read another point
or refuse the batch, which is then sent again without end. What the line
protocol cannot express at all is left out.
---
 src/sink/influxdb.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index a39f15f..1265aaf 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -74,13 +74,33 @@ impl Default for InfluxDBConfig {
     }
 }
 
+/// Whether the line protocol can express this name, key or tag value.
+#[inline]
+fn expressible(s: &str) -> bool {
+    !s.is_empty() && !s.ends_with('\\') && !s.contains('\n')
+}
+
+#[inline]
+fn push_escaped(s: &str, special: &[char], buf: &mut String) {
+    for c in s.chars() {
+        if special.contains(&c) {
+            buf.push('\\');
+        }
+        buf.push(c);
+    }
+}
+
 #[inline]
 fn fmt_tags(tags: TagIter, s: &mut String) {
     for (k, v) in tags {
+        if !expressible(k) || !expressible(v) {
+            debug!("InfluxDB cannot hold tag {:?}={:?}", k, v);
+            continue;
+        }
         s.push_str(",");
-        s.push_str(k);
+        push_escaped(k, &[',', '=', ' '], s);
         s.push_str("=");
-        s.push_str(v);
+        push_escaped(v, &[',', '=', ' '], s);
     }
 }
 
@@ -107,11 +127,18 @@ impl InfluxDB {
         let mut value_cache: Vec<(f64, String)> = Vec::with_capacity(128);
 
         let mut tag_buf = String::with_capacity(1_024);
+        let mut name = String::with_capacity(64);
         for telem in telems.iter() {
+            if !expressible(&telem.name) {
+                debug!("InfluxDB cannot hold a measurement named {:?}", telem.name);
+                continue;
+            }
+            name.clear();
+            push_escaped(&telem.name, &[',', ' '], &mut name);
             match telem.kind() {
                 AggregationMethod::Sum => {
                     if let Some(val) = telem.sum() {
-                        buffer.push_str(&telem.name);
+                        buffer.push_str(&name);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
                         buffer.push_str(" ");
@@ -128,7 +155,7 @@ impl InfluxDB {
                 }
                 AggregationMethod::Set => {
                     if let Some(val) = telem.set() {
-                        buffer.push_str(&telem.name);
+                        buffer.push_str(&name);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
                         buffer.push_str(" ");
@@ -151,7 +178,7 @@ impl InfluxDB {
                                 Bound::PosInf => "le_inf".to_string(),
                             };
                             buffer
-                                .push_str(&format!("{}.{}", &telem.name, bound_name));
+                                .push_str(&format!("{}.{}", &name, bound_name));
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
                             buffer.push_str(" ");
@@ -174,7 +201,7 @@ impl InfluxDB {
                     for percentile in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
                         if let Some(val) = telem.query(*percentile) {
                             buffer
-                                .push_str(&format!("{}.{}", &telem.name, percentile));
+                                .push_str(&format!("{}.{}", &name, percentile));
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                             buffer.push_str(&tag_buf);
                             buffer.push_str(" ");
-- 
2.43.0


From 702ca6dccf117cda8c928340e9586ca294d8b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 45/54] fix: C28 times before 1970 and beyond 2262 for InfluxDB

They were written as numbers InfluxDB does not accept: the batch was refused and
sent again without end.
---
 src/sink/influxdb.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index 1265aaf..8abd6a3 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -74,6 +74,14 @@ impl Default for InfluxDBConfig {
     }
 }
 
+/// A time in seconds as InfluxDB wants it, within the range it accepts.
+#[inline]
+fn nanoseconds(time: i64) -> i64 {
+    time.saturating_mul(1_000_000_000)
+        .max(i64::min_value() + 2)
+        .min(i64::max_value() - 1)
+}
+
 /// Whether the line protocol can express this name, key or tag value.
 #[inline]
 fn expressible(s: &str) -> bool {
@@ -123,7 +131,7 @@ impl InfluxDB {
     /// Convert the slice into a payload that can be sent to InfluxDB
     fn format_stats(&self, buffer: &mut String, telems: &[Telemetry]) {
         use crate::metric::AggregationMethod;
-        let mut time_cache: Vec<(u64, String)> = Vec::with_capacity(128);
+        let mut time_cache: Vec<(i64, String)> = Vec::with_capacity(128);
         let mut value_cache: Vec<(f64, String)> = Vec::with_capacity(128);
 
         let mut tag_buf = String::with_capacity(1_024);
@@ -147,7 +155,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            nanoseconds(telem.timestamp),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -164,7 +172,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            nanoseconds(telem.timestamp),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -190,7 +198,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                nanoseconds(telem.timestamp),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
@@ -210,7 +218,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                nanoseconds(telem.timestamp),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
-- 
2.43.0


From 712b9de656d39055b6785dfba4f3c3c06f9ec8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 46/54] fix: C28 leave out values that are not finite, which
 InfluxDB cannot hold

NaN made the sink panic, an infinity made InfluxDB refuse the batch, which is
then sent again without end.
---
 src/sink/influxdb.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index 8abd6a3..b8ebabc 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -145,7 +145,7 @@ impl InfluxDB {
             push_escaped(&telem.name, &[',', ' '], &mut name);
             match telem.kind() {
                 AggregationMethod::Sum => {
-                    if let Some(val) = telem.sum() {
+                    if let Some(val) = telem.sum().filter(|v| v.is_finite()) {
                         buffer.push_str(&name);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -162,7 +162,7 @@ impl InfluxDB {
                     }
                 }
                 AggregationMethod::Set => {
-                    if let Some(val) = telem.set() {
+                    if let Some(val) = telem.set().filter(|v| v.is_finite()) {
                         buffer.push_str(&name);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -207,7 +207,9 @@ impl InfluxDB {
                 }
                 AggregationMethod::Summarize => {
                     for percentile in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
-                        if let Some(val) = telem.query(*percentile) {
+                        if let Some(val) =
+                            telem.query(*percentile).filter(|v| v.is_finite())
+                        {
                             buffer
                                 .push_str(&format!("{}.{}", &name, percentile));
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
-- 
2.43.0


From 2a74b67ad3148266d20bbabee7a3515c958370a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 47/54] fix: C17 metadata whose key cannot be the name of a
 Kafka header is left out

The sink panicked at a key that is not UTF-8 or holds a zero byte; keys come
from the clients of the Avro source.
---
 src/sink/kafka.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sink/kafka.rs b/src/sink/kafka.rs
index 453fbe8..e84f5fb 100644
--- a/src/sink/kafka.rs
+++ b/src/sink/kafka.rs
@@ -157,7 +157,12 @@ impl KafkaMessageSender for FutureProducer<STFUContext> {
         let mut headers = OwnedHeaders::new();
         if let Some(m) = metadata {
             for (k, v) in m {
-                headers = headers.clone().add(str::from_utf8(&k).unwrap(), &v);
+                match str::from_utf8(&k) {
+                    Ok(name) if !k.contains(&0) => {
+                        headers = headers.add(name, &v);
+                    }
+                    _ => error!("Not a name for a Kafka header, left out: {:?}", k),
+                }
             }
         };
         Box::new(KafkaPublishResult {
-- 
2.43.0


From 775023eb5c7a2a9a7f47c80b4872dbf7a2653461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 48/54] fix: C17 a broken connection to the broker is worth
 another try

What was under way when the connection broke was given up, and acknowledged.
---
 src/sink/kafka.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sink/kafka.rs b/src/sink/kafka.rs
index e84f5fb..d52541d 100644
--- a/src/sink/kafka.rs
+++ b/src/sink/kafka.rs
@@ -411,7 +411,8 @@ impl Kafka {
 
                         Err((err, message)) => match err {
                             KafkaError::MessageProduction(err) => match err {
-                                RDKafkaError::InvalidMessage
+                                RDKafkaError::BrokerTransportFailure
+                                | RDKafkaError::InvalidMessage
                                 | RDKafkaError::UnknownTopicOrPartition
                                 | RDKafkaError::LeaderNotAvailable
                                 | RDKafkaError::NotLeaderForPartition
-- 
2.43.0


From a2973d485d969775344bcffe05ed8b9dce17ac14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 49/54] fix: C14 the Wavefront sink no longer panics at a value
 that is not a number

---
 src/sink/wavefront.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 1be275c..9360003 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -366,7 +366,14 @@ fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> &str
 where
     T: cmp::PartialOrd + string::ToString + Copy,
 {
-    match cache.binary_search_by(|probe| probe.0.partial_cmp(&val).unwrap()) {
+    // NaN is not equal to itself and has no order: here it comes last
+    let nan = |x: &T| x.partial_cmp(x).is_none();
+    match cache.binary_search_by(|probe| {
+        probe
+            .0
+            .partial_cmp(&val)
+            .unwrap_or_else(|| nan(&probe.0).cmp(&nan(&val)))
+    }) {
         Ok(idx) => &cache[idx].1,
         Err(idx) => {
             let str_val = val.to_string();
-- 
2.43.0


From 3834e567b81e9839a80ea46246737ce0cda65a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:20 +0000
Subject: [PATCH 50/54] fix: C19 a point with a bin bound that is not a number
 no longer ends its connection

---
 src/metric/telemetry.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/metric/telemetry.rs b/src/metric/telemetry.rs
index 9ce604b..33123d9 100644
--- a/src/metric/telemetry.rs
+++ b/src/metric/telemetry.rs
@@ -335,6 +335,8 @@ impl SoftTelemetry {
     /// AggregationMethod::Histogram. It is an error to set this if the
     /// aggregation method is not as previously specified.
     pub fn bounds(mut self, mut bounds: Vec<f64>) -> SoftTelemetry {
+        // NaN has no order and bounds nothing
+        bounds.retain(|b| !b.is_nan());
         bounds.sort_by(|a, b| a.partial_cmp(b).unwrap());
         self.bounds = Some(bounds);
         self
@@ -433,10 +435,9 @@ impl SoftTelemetry {
                 }
                 let value = match (self.initial_value, self.thawed_value) {
                     (Some(iv), None) => {
-                        let bounds = if let Some(bounds) = self.bounds {
-                            bounds
-                        } else {
-                            vec![1.0, 10.0, 100.0, 1000.0]
+                        let bounds = match self.bounds {
+                            Some(ref bounds) if !bounds.is_empty() => bounds.clone(),
+                            _ => vec![1.0, 10.0, 100.0, 1000.0],
                         };
                         let mut histo = Histogram::new(bounds).unwrap();
                         histo.insert(iv);
-- 
2.43.0


From fa82d773dc513fd8370990d3eaea193b66372fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:13 +0000
Subject: [PATCH 51/54] fix: options out of range were replaced by other values
 instead of refused

A port of 70000 listened on 4464, a delivery_attempt_limit of 256 meant 0,
and negative numbers became huge ones.
---
 src/config.rs | 98 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 40 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 1356411..fe961d5 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -6,6 +6,7 @@
 use crate::metric::TagMap;
 use clap::{App, Arg};
 use std::collections::HashMap;
+use std::convert::TryFrom;
 use std::env;
 use std::fs::File;
 use std::io::Read;
@@ -154,8 +155,19 @@ impl Default for Args {
 fn parse_flush_interval(table: &toml::Value, key: &str) -> Option<u64> {
     match table.get(key) {
         Some(value) => match value {
-            toml::Value::Float(f) => Some((f * flushes_per_second() as f64) as u64),
-            toml::Value::Integer(i) => Some(*i as u64 * flushes_per_second()),
+            toml::Value::Float(f) => {
+                let flushes = f * flushes_per_second() as f64;
+                if !(flushes >= 0.0 && flushes < u64::max_value() as f64) {
+                    panic!("{} is out of range.", key);
+                }
+                Some(flushes as u64)
+            }
+            toml::Value::Integer(i) => Some(
+                u64::try_from(*i)
+                    .ok()
+                    .and_then(|i| i.checked_mul(flushes_per_second()))
+                    .unwrap_or_else(|| panic!("{} is out of range.", key)),
+            ),
             _ => panic!(
                 "Expected number of seconds for flush_interval config parameter."
             ),
@@ -223,7 +235,8 @@ fn parse_config_file(buffer: &str) -> Args {
         .get("max-hopper-queue-bytes")
         .map(|s| {
             s.as_integer()
-                .expect("could not parse max-hopper-queue-bytes") as usize
+                .and_then(|i| usize::try_from(i).ok())
+                .expect("could not parse max-hopper-queue-bytes")
         })
         .unwrap_or(args.max_hopper_queue_bytes);
 
@@ -231,7 +244,8 @@ fn parse_config_file(buffer: &str) -> Args {
         .get("max-hopper-queue-files")
         .map(|s| {
             s.as_integer()
-                .expect("could not parse max-hopper-queue-files") as usize
+                .and_then(|i| usize::try_from(i).ok())
+                .expect("could not parse max-hopper-queue-files")
         })
         .unwrap_or(args.max_hopper_queue_files);
 
@@ -239,8 +253,8 @@ fn parse_config_file(buffer: &str) -> Args {
         .get("max-hopper-in-memory-bytes")
         .map(|s| {
             s.as_integer()
+                .and_then(|i| usize::try_from(i).ok())
                 .expect("could not parse max-hopper-in-memory-bytes")
-                as usize
         })
         .unwrap_or(args.max_hopper_in_memory_bytes);
 
@@ -380,8 +394,10 @@ fn parse_config_file(buffer: &str) -> Args {
             for (name, tbl) in fltr.as_table().unwrap().iter() {
                 match tbl.get("tolerance") {
                     Some(tol) => {
-                        let tolerance =
-                            tol.as_integer().expect("tolerance must be an integer");
+                        let tolerance = tol
+                            .as_integer()
+                            .and_then(|i| usize::try_from(i).ok())
+                            .expect("tolerance must be an integer");
                         let fwds = match tbl.get("forwards") {
                             Some(fwds) => fwds
                                 .as_array()
@@ -394,7 +410,7 @@ fn parse_config_file(buffer: &str) -> Args {
                         };
                         let config_path = format!("filters.flush_boundary.{}", name);
                         let config = FlushBoundaryFilterConfig {
-                            tolerance: tolerance as usize,
+                            tolerance: tolerance,
                             forwards: fwds,
                             config_path: Some(config_path.clone()),
                         };
@@ -508,16 +524,16 @@ fn parse_config_file(buffer: &str) -> Args {
             res.port = snk.get("port")
                 .map(|p| {
                     p.as_integer()
+                        .and_then(|i| u16::try_from(i).ok())
                         .expect("could not parse sinks.wavefront.port")
-                        as u16
                 })
                 .unwrap_or(res.port);
 
             res.age_threshold = snk.get("age_threshold")
                 .map(|p| {
                     Some(p.as_integer()
-                        .expect("could not parse sinks.wavefront.age_threshold")
-                        as u64)
+                        .and_then(|i| u64::try_from(i).ok())
+                        .expect("could not parse sinks.wavefront.age_threshold"))
                 })
                 .unwrap_or(res.age_threshold);
 
@@ -553,7 +569,9 @@ fn parse_config_file(buffer: &str) -> Args {
             res.port = snk
                 .get("port")
                 .map(|p| {
-                    p.as_integer().expect("could not parse sinks.influxdb.port") as u16
+                    p.as_integer()
+                        .and_then(|i| u16::try_from(i).ok())
+                        .expect("could not parse sinks.influxdb.port")
                 })
                 .unwrap_or(res.port);
 
@@ -595,9 +613,9 @@ fn parse_config_file(buffer: &str) -> Args {
                 res.age_threshold =
                     snk.get("age_threshold")
                         .map(|p| {
-                            Some(p.as_integer().expect(
-                                "could not parse sinks.prometheus.age_threshold",
-                            ) as u64)
+                            Some(p.as_integer()
+                                .and_then(|i| u64::try_from(i).ok())
+                                .expect("could not parse sinks.prometheus.age_threshold"))
                         })
                         .unwrap_or(res.age_threshold);
 
@@ -605,8 +623,8 @@ fn parse_config_file(buffer: &str) -> Args {
                     .get("port")
                     .map(|p| {
                         p.as_integer()
+                            .and_then(|i| u16::try_from(i).ok())
                             .expect("could not parse sinks.prometheus.port")
-                            as u16
                     })
                     .unwrap_or(res.port);
 
@@ -622,9 +640,9 @@ fn parse_config_file(buffer: &str) -> Args {
                 res.capacity_in_seconds = snk
                     .get("capacity_in_seconds")
                     .map(|p| {
-                        p.as_integer().expect(
-                            "could not parse sinks.prometheus.capacity_in_seconds",
-                        ) as usize
+                        p.as_integer()
+                            .and_then(|i| usize::try_from(i).ok())
+                            .expect("could not parse sinks.prometheus.capacity_in_seconds")
                     })
                     .unwrap_or(res.capacity_in_seconds);
 
@@ -640,9 +658,9 @@ fn parse_config_file(buffer: &str) -> Args {
             res.delivery_attempt_limit = snk
                 .get("delivery_attempt_limit")
                 .map(|p| {
-                    p.as_integer().expect(
-                        "could not parse sinks.elasticsearch.delivery_attempt_limit",
-                    ) as u8
+                    p.as_integer()
+                        .and_then(|i| u8::try_from(i).ok())
+                        .expect("could not parse sinks.elasticsearch.delivery_attempt_limit")
                 })
                 .unwrap_or(res.delivery_attempt_limit);
 
@@ -650,8 +668,8 @@ fn parse_config_file(buffer: &str) -> Args {
                 .get("port")
                 .map(|p| {
                     p.as_integer()
+                        .and_then(|i| usize::try_from(i).ok())
                         .expect("could not parse sinks.elasticsearch.port")
-                        as usize
                 })
                 .unwrap_or(res.port);
 
@@ -706,7 +724,9 @@ fn parse_config_file(buffer: &str) -> Args {
             res.port = snk
                 .get("port")
                 .map(|p| {
-                    p.as_integer().expect("could not parse sinks.native.port") as u16
+                    p.as_integer()
+                        .and_then(|i| u16::try_from(i).ok())
+                        .expect("could not parse sinks.native.port")
                 })
                 .unwrap_or(res.port);
 
@@ -802,8 +822,8 @@ fn parse_config_file(buffer: &str) -> Args {
                     .get("max_message_bytes")
                     .map(|fi| {
                         fi.as_integer()
+                            .and_then(|i| usize::try_from(i).ok())
                             .expect("could not parse sinks.kafka.max_message_bytes")
-                            as usize
                     })
                     .unwrap_or(res.max_message_bytes);
 
@@ -839,21 +859,12 @@ fn parse_config_file(buffer: &str) -> Args {
                             })
                             .unwrap_or(fl.forwards);
 
-                        // NOTE The table lookup will return an i64 but we
-                        // convert to usize. Strictly speaking this IS NOT a
-                        // safe conversion but it makes no good sense for a user
-                        // to be reading anywhere above 2**60 lines per file. We
-                        // leave these people to their own wild works and hope
-                        // for the best.
-                        //
-                        // Someday a static analysis system will flag this as
-                        // unsafe. Welcome.
                         fl.max_read_bytes = tbl
                             .get("max_read_bytes")
                             .map(|mrl| {
                                 mrl.as_integer()
+                                    .and_then(|i| usize::try_from(i).ok())
                                     .expect("could not parse max_read_bytes")
-                                    as usize
                             })
                             .unwrap_or(fl.max_read_bytes);
 
@@ -880,7 +891,9 @@ fn parse_config_file(buffer: &str) -> Args {
                     res.port = tbl
                         .get("port")
                         .map(|p| {
-                            p.as_integer().expect("could not parse statsd port") as u16
+                            p.as_integer()
+                                .and_then(|i| u16::try_from(i).ok())
+                                .expect("could not parse statsd port")
                         })
                         .unwrap_or(res.port);
 
@@ -974,8 +987,9 @@ fn parse_config_file(buffer: &str) -> Args {
                     res.port = tbl
                         .get("port")
                         .map(|p| {
-                            p.as_integer().expect("could not parse graphite port")
-                                as u16
+                            p.as_integer()
+                                .and_then(|i| u16::try_from(i).ok())
+                                .expect("could not parse graphite port")
                         })
                         .unwrap_or(res.port);
 
@@ -1027,7 +1041,9 @@ fn parse_config_file(buffer: &str) -> Args {
                     res.port = tbl
                         .get("port")
                         .map(|p| {
-                            p.as_integer().expect("could not parse avro port") as u16
+                            p.as_integer()
+                                .and_then(|i| u16::try_from(i).ok())
+                                .expect("could not parse avro port")
                         })
                         .unwrap_or(2002);
 
@@ -1074,7 +1090,9 @@ fn parse_config_file(buffer: &str) -> Args {
                     res.port = tbl
                         .get("port")
                         .map(|p| {
-                            p.as_integer().expect("could not parse native port") as u16
+                            p.as_integer()
+                                .and_then(|i| u16::try_from(i).ok())
+                                .expect("could not parse native port")
                         })
                         .unwrap_or(res.port);
 
-- 
2.43.0


From 4f5f8bec66a0dd3e62747ca96702c789c2def575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:32 +0000
Subject: [PATCH 52/54] fix: native: times far from the present came out
 changed by up to a second and more

The conversion from milliseconds went through a float.
---
 src/source/native.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/source/native.rs b/src/source/native.rs
index 73382a1..06ff1b6 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -144,7 +144,7 @@ impl NativeStreamHandler {
                     let aggr_type: AggregationMethod = point.get_method();
                     let mut meta = point.take_metadata();
                     // FIXME #166
-                    let ts: i64 = (point.get_timestamp_ms() as f64 * 0.001) as i64;
+                    let ts: i64 = point.get_timestamp_ms() / 1000;
 
                     if smpls.is_empty() {
                         continue;
@@ -188,7 +188,7 @@ impl NativeStreamHandler {
                     let value: String = line.take_value();
                     let mut meta = line.take_metadata();
                     // FIXME #166
-                    let ts: i64 = (line.get_timestamp_ms() as f64 * 0.001) as i64;
+                    let ts: i64 = line.get_timestamp_ms() / 1000;
 
                     let mut logline = metric::LogLine::new(path, value);
                     logline = logline.time(ts);
-- 
2.43.0


From 8609b7836c2f9418c63be8075d6a02430165b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 53/54] fix: padding and percentiles that are no tables were
 ignored instead of refused

---
 src/config.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index fe961d5..65862b6 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -489,7 +489,10 @@ fn parse_config_file(buffer: &str) -> Args {
             res.config_path = Some("sinks.wavefront".to_string());
 
             res.pad_control = snk.get("padding")
-                .and_then(|t| t.as_table())
+                .map(|t| {
+                    t.as_table()
+                        .expect("could not parse sinks.wavefront.padding")
+                })
                 .map(|tbl| PadControl {
                     set: tbl.get("set").map_or(false, |v| {
                         v.as_bool().expect("could not parse padding.set as boolean")
@@ -509,7 +512,10 @@ fn parse_config_file(buffer: &str) -> Args {
                 .unwrap_or(res.pad_control);
 
             res.percentiles = snk.get("percentiles")
-                .and_then(|t| t.as_table())
+                .map(|t| {
+                    t.as_table()
+                        .expect("could not parse sinks.wavefront.percentiles")
+                })
                 .map(|tbl| {
                     let mut prcnt = Vec::default();
                     for (k, v) in tbl.iter() {
-- 
2.43.0


From d85b53b0987edaa7d08675d5b66ec47a6ef79910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 54/54] fix: prometheus: series of one name that differ in
 their tags were merged into one

The tags shown were those of the first point, the value that of all of them.
---
 src/sink/prometheus.rs | 59 +++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index d7a9073..d326f39 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -17,7 +17,7 @@ use crate::time;
 use flate2::write::GzEncoder;
 use flate2::Compression;
 use quantiles::histogram::Bound;
-use std::collections::hash_map::{Entry, HashMap, Values};
+use std::collections::hash_map::{Entry, HashMap};
 use std::collections::HashSet;
 use std::f64;
 use std::io;
@@ -27,6 +27,7 @@ use std::sync;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Mutex;
 use std::time::Instant;
+use std::vec;
 
 /// Total reportable metrics
 pub static PROMETHEUS_AGGR_REPORTABLE: AtomicUsize = AtomicUsize::new(0);
@@ -268,9 +269,13 @@ impl PrometheusAggr {
     ///
     /// This function returns all the stored Telemetry points that are available
     /// for shipping to Prometheus.
+    ///
+    /// The series of one name come one after the other.
     fn reportable(&self) -> Iter {
+        let mut data: Vec<(&String, &Accumulator)> = self.data.iter().collect();
+        data.sort_by(|a, b| a.0.cmp(b.0));
         Iter {
-            samples: self.data.values(),
+            samples: data.into_iter(),
         }
     }
 
@@ -284,8 +289,19 @@ impl PrometheusAggr {
     /// end, this function returns False if a Telemetry is inserted that differs
     /// only in its aggregation method from a Telemetry stored previously.
     fn insert(&mut self, telem: Telemetry) -> bool {
-        // Names that are the same to Prometheus share an accumulator
-        let entry: Entry<String, Accumulator> = self.data.entry(sanitize(&telem.name));
+        let series = series(&telem);
+        // All series of a name are of one kind
+        if !self.data.contains_key(&series) {
+            let name = sanitize(&telem.name);
+            let clash = self.data.iter().any(|(other, accum)| {
+                accum.kind() != telem.kind()
+                    && other.split('(').next() == Some(name.as_str())
+            });
+            if clash {
+                return false;
+            }
+        }
+        let entry: Entry<String, Accumulator> = self.data.entry(series);
         match entry {
             Entry::Occupied(mut oe) => {
                 let prev = oe.get_mut();
@@ -342,7 +358,7 @@ impl PrometheusAggr {
 
 /// Iteration struct for the bucket. Created by `Buckets.iter()`.
 pub struct Iter<'a> {
-    samples: Values<'a, String, Accumulator>,
+    samples: vec::IntoIter<(&'a String, &'a Accumulator)>,
 }
 
 impl<'a> Iterator for Iter<'a> {
@@ -351,13 +367,13 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Telemetry> {
         loop {
             match self.samples.next() {
-                Some(&Accumulator::Perpetual(ref t)) => return Some(t.clone()),
-                Some(&Accumulator::Windowed {
+                Some((_, &Accumulator::Perpetual(ref t))) => return Some(t.clone()),
+                Some((_, &Accumulator::Windowed {
                     ref samples,
                     count,
                     sum,
                     ..
-                }) => match samples.len() {
+                })) => match samples.len() {
                     0 => continue,
                     1 => {
                         return Some(
@@ -523,7 +539,7 @@ where
         match value.kind() {
             AggregationMethod::Sum => {
                 if let Some(v) = value.sum() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "counter", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -531,7 +547,7 @@ where
             }
             AggregationMethod::Set => {
                 if let Some(v) = value.set() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "gauge", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -539,7 +555,7 @@ where
             }
             AggregationMethod::Histogram => {
                 if let Some(bin_iter) = value.bins() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "histogram", &mut w)?;
                     }
                     let mut running_sum = 0;
@@ -580,7 +596,7 @@ where
                 }
             }
             AggregationMethod::Summarize => {
-                if seen.insert(value.name.clone()) {
+                if seen.insert(sanitized_name.clone()) {
                     write_type(&sanitized_name, "summary", &mut w)?;
                 }
                 for q in &[0.0, 1.0, 0.25, 0.5, 0.75, 0.90, 0.95, 0.99, 0.999] {
@@ -648,6 +664,19 @@ fn sanitize(name: &str) -> String {
     String::from_utf8(new_name).unwrap()
 }
 
+/// The series a Telemetry is part of: its name, as Prometheus knows it, and its
+/// tags. What comes of the name has no parenthesis in it.
+fn series(telem: &Telemetry) -> String {
+    let mut series = sanitize(&telem.name);
+    let defaults = TagMap::default();
+    let mut tags: Vec<(&String, &String)> = telem.tags(&defaults).collect();
+    tags.sort();
+    for tag in tags {
+        series.push_str(&format!("{:?}", tag));
+    }
+    series
+}
+
 impl Sink<PrometheusConfig> for Prometheus {
     fn init(config: PrometheusConfig) -> Self {
         let aggrs = PrometheusAggr::new(config.capacity_in_seconds);
@@ -680,6 +709,12 @@ impl Sink<PrometheusConfig> for Prometheus {
     }
 
     fn deliver(&mut self, telem: Telemetry) {
+        // What tells series apart are the tags they are reported with
+        let tags: TagMap = telem
+            .tags(&self.tags)
+            .map(|(k, v)| (k.clone(), v.clone()))
+            .collect();
+        let telem = telem.overlay_tags_from_map(&tags);
         if let Some(age_threshold) = self.age_threshold {
             if distance(telem.timestamp, time::now()) <= i128::from(age_threshold) {
                 self.aggrs.lock().unwrap().insert(telem);
-- 
2.43.0

