From b2575fbea89dfdd77db65bddeb2370a98945dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:08 +0000
Subject: [PATCH 01/56] fix: restore the used inputs and edges too, when a
 matrix change is rolled back

---
 src/matrix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9bd7215..75b0b4a 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -671,6 +671,9 @@ impl Matrix {
     pub fn restore_matrix(&mut self) {
         if let Some(matrix) = self.saved_matrix.take() {
             self.matrix = matrix;
+            // The edges and used inputs might have been calculated from the
+            // rejected contents by Matrix::check().
+            self.update_graph_ordering_and_edges();
         }
     }
 
-- 
2.43.0


From 9ee0f216176a57f1e3ec8e17b0acacd576b3f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:25 +0000
Subject: [PATCH 02/56] fix: don't print from the audio thread when a TSeq
 clock is synced

---
 src/dsp/node_tseq.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dsp/node_tseq.rs b/src/dsp/node_tseq.rs
index f362c41..5a2f3cd 100644
--- a/src/dsp/node_tseq.rs
+++ b/src/dsp/node_tseq.rs
@@ -218,7 +218,6 @@ impl DspNode for TSeq {
         for (frame, phase_out) in phase_out.iter_mut().enumerate().take(ctx.nframes()) {
             if time.trigger.check_trigger(denorm::TSeq::trig(trig, frame)) {
                 time.clock.sync();
-                println!("CLOCK SYNC");
             }
 
             let phase = match cmode {
-- 
2.43.0


From 2e6fcd5b057bbb26cbb7f2257fdf3a4680f820df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:51 +0000
Subject: [PATCH 03/56] fix: don't panic when a node is connected to more than
 64 other nodes

---
 src/nodes/node_graph_ordering.rs | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/nodes/node_graph_ordering.rs b/src/nodes/node_graph_ordering.rs
index a247bd8..85a610a 100644
--- a/src/nodes/node_graph_ordering.rs
+++ b/src/nodes/node_graph_ordering.rs
@@ -6,39 +6,28 @@ use crate::dsp::NodeId;
 use std::collections::HashMap;
 use std::collections::HashSet;
 
-pub const MAX_NODE_EDGES: usize = 64;
-pub const UNUSED_NODE_EDGE: usize = 999999;
-
-#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 struct Node {
     /// The [NodeId] of this node.
     node_id: NodeId,
     /// The output edges of this node.
-    edges: [usize; MAX_NODE_EDGES],
-    /// The first unused index in the `edges` array.
-    unused_idx: usize,
+    edges: Vec<usize>,
 }
 
 impl Node {
     pub fn new() -> Self {
-        Self { node_id: NodeId::Nop, edges: [UNUSED_NODE_EDGE; MAX_NODE_EDGES], unused_idx: 0 }
+        Self { node_id: NodeId::Nop, edges: vec![] }
     }
 
     pub fn clear(&mut self) {
         self.node_id = NodeId::Nop;
-        self.edges = [UNUSED_NODE_EDGE; MAX_NODE_EDGES];
-        self.unused_idx = 0;
+        self.edges.clear();
     }
 
     pub fn add_edge(&mut self, node_index: usize) {
-        for ni in self.edges.iter().take(self.unused_idx) {
-            if *ni == node_index {
-                return;
-            }
+        if !self.edges.contains(&node_index) {
+            self.edges.push(node_index);
         }
-
-        self.edges[self.unused_idx] = node_index;
-        self.unused_idx += 1;
     }
 }
 
@@ -122,7 +111,7 @@ impl NodeGraphOrdering {
             }
 
             if let Some(node) = self.get_node(node_id) {
-                for node_idx in node.edges.iter().take(node.unused_idx) {
+                for node_idx in node.edges.iter() {
                     node_stack.push(self.nodes[*node_idx].node_id);
                 }
             }
@@ -145,7 +134,7 @@ impl NodeGraphOrdering {
 
         // Calculate the number of inputs for each node:
         for node in self.nodes.iter().take(self.node_count) {
-            for out_node_idx in node.edges.iter().take(node.unused_idx) {
+            for out_node_idx in node.edges.iter() {
                 self.in_degree[*out_node_idx] += 1;
             }
         }
@@ -169,7 +158,7 @@ impl NodeGraphOrdering {
             out.push(node.node_id);
 
             // Push the nodes we output to, to the end of the dequeue:
-            for neigh_node_idx in node.edges.iter().take(node.unused_idx) {
+            for neigh_node_idx in node.edges.iter() {
                 // by reducing the input count of the to be visited node:
                 self.in_degree[*neigh_node_idx] -= 1;
 
-- 
2.43.0


From 16eacfc4710fe5aa45446349325bbb6a802d99fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 04/56] fix: don't continue smoothing the parameters of a
 cleared graph

---
 src/nodes/node_exec.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index bd5d5aa..d614625 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -205,6 +205,7 @@ impl NodeExecutor {
             match upd {
                 GraphMessage::Clear { prog } => {
                     self.exec_ctx.clear();
+                    self.stop_smoothers();
 
                     self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];
 
@@ -270,6 +271,8 @@ impl NodeExecutor {
                         // input processing buffers, so we keep any modulation
                         // (smoothed) history of the block too.
                         self.prog.swap_previous_outputs(&mut prev_prog);
+                    } else {
+                        self.stop_smoothers();
                     }
 
                     self.prog.assign_outputs();
@@ -406,6 +409,17 @@ impl NodeExecutor {
         }
     }
 
+    /// Stops all running parameter smoothers. Needs to be called if the input
+    /// indices they refer to don't refer to the same parameters anymore.
+    #[inline]
+    fn stop_smoothers(&mut self) {
+        self.target_refresh.clear();
+
+        for (_, smoother) in self.smoothers.iter_mut() {
+            smoother.stop();
+        }
+    }
+
     #[inline]
     fn process_smoothers(&mut self, nframes: usize) {
         let prog = &mut self.prog;
-- 
2.43.0


From ed0bb5fa4b9abd980e1a21b769511a401191ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 05/56] fix: continue from the current value if a smoothed
 parameter changes again after a graph change

---
 src/nodes/node_exec.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index d614625..0354aa7 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -271,6 +271,14 @@ impl NodeExecutor {
                         // input processing buffers, so we keep any modulation
                         // (smoothed) history of the block too.
                         self.prog.swap_previous_outputs(&mut prev_prog);
+
+                        // The parameters that are still being smoothed did not
+                        // reach the values in the new program yet.
+                        for (idx, smoother) in self.smoothers.iter().filter(|s| !s.1.is_done()) {
+                            if *idx < self.prog.params.len() {
+                                self.prog.params[*idx] = smoother.current();
+                            }
+                        }
                     } else {
                         self.stop_smoothers();
                     }
-- 
2.43.0


From a3e52bd6831e05fe6593a22d346db489fe56b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 06/56] fix: don't lose parameter changes if all smoothers are
 in use

---
 src/nodes/node_exec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 0354aa7..4d37262 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -414,6 +414,11 @@ impl NodeExecutor {
             sm.1.set(prog.params[input_idx], value);
             //d// println!("SET SMOOTHER {} {:6.3} (old = {:6.3})",
             //d//          input_idx, value, prog.params[input_idx]);
+        } else {
+            // All smoothers are busy, set the value directly, so the update is not lost:
+            self.target_refresh.retain(|(idx, _)| *idx != input_idx);
+            prog.params[input_idx] = value;
+            prog.inp[input_idx].fill(value);
         }
     }
 
-- 
2.43.0


From a4dae78c779432cf8de0fbc919b180042c3031e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 07/56] fix: don't panic on the audio thread if a setting
 changes for a graph that did not arrive

---
 src/nodes/node_exec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 4d37262..2fb26a9 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -297,7 +297,10 @@ impl NodeExecutor {
                 }
                 GraphMessage::AtomUpdate { at_idx, value } => {
                     let prog = &mut self.prog;
-                    let garbage = std::mem::replace(&mut prog.atoms[at_idx], value);
+                    let garbage = match prog.atoms.get_mut(at_idx) {
+                        Some(atom) => std::mem::replace(atom, value),
+                        None => value,
+                    };
 
                     let _ = self.shared.graph_drop_prod.push(DropMsg::Atom { atom: garbage });
                 }
-- 
2.43.0


From 8229aa21d5ccb7f6d02dd52857f215200d4318c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:27 +0000
Subject: [PATCH 08/56] fix: don't keep the patterns and block functions of the
 previous patch when loading a patch

---
 src/dsp/tracker/pattern.rs |  7 +++++++
 src/global.rs              | 21 +++++++++++++++++++++
 src/matrix.rs              |  6 ++++++
 src/wblockdsp/language.rs  |  9 ++++++++-
 4 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 4783f09..bad45c8 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -55,6 +55,13 @@ impl PatternData {
         true
     }
 
+    /// Resets the pattern to its initial empty state.
+    pub fn reset(&mut self) {
+        let generation = self.generation + 1;
+        *self = Self::new(MAX_PATTERN_LEN);
+        self.generation = generation;
+    }
+
     pub fn to_repr(&self) -> PatternRepr {
         let mut col_types = [0; MAX_COLS];
         for (i, ct) in self.col_types.iter().enumerate() {
diff --git a/src/global.rs b/src/global.rs
index fe5c76f..ad6e153 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -98,6 +98,15 @@ impl NodeGlobalData {
         self.trackers.get(&index).unwrap().data()
     }
 
+    /// Resets all allocated patterns to their initial empty state.
+    pub fn reset_pattern_data(&mut self) {
+        for tracker in self.trackers.values() {
+            if let Ok(mut data) = tracker.data().lock() {
+                data.reset();
+            }
+        }
+    }
+
     /// Returns true, if the tracker and patterndata for `index` has already been allocated.
     pub fn has_tracker(&self, index: usize) -> bool {
         self.trackers.contains_key(&index)
@@ -190,6 +199,18 @@ impl NodeGlobalData {
         }
     }
 
+    /// Resets all used block functions to their initial empty state.
+    pub fn reset_block_functions(&mut self) {
+        #[cfg(feature = "synfx-dsp-jit")]
+        for (_, block_fun) in self.block_functions.values() {
+            if let Ok(mut block_fun) = block_fun.lock() {
+                if !block_fun.is_unset() {
+                    block_fun.reset();
+                }
+            }
+        }
+    }
+
     /// Checks the [CodeEngine] and block function for the id `id`. If the block function did change,
     /// updates are then sent to the audio thread.
     /// See also [NodeGlobalData::get_block_function].
diff --git a/src/matrix.rs b/src/matrix.rs
index 75b0b4a..67b3934 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -928,6 +928,12 @@ impl Matrix {
             self.place(cell.x as usize, cell.y as usize, cell);
         }
 
+        // Don't keep the patterns and block functions of the previous patch:
+        if let Ok(mut node_global) = self.config.get_node_global().lock() {
+            node_global.reset_pattern_data();
+            node_global.reset_block_functions();
+        }
+
         for (tracker_id, pat) in repr.patterns.iter().enumerate() {
             if let Some(pat) = pat {
                 if let Some(pd) = self.get_pattern_data(tracker_id) {
diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 2efe7fe..ae002b7 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1183,7 +1183,14 @@ impl BlockFun {
     }
 
     pub fn is_unset(&self) -> bool {
-        self.generation == 0
+        self.generation == 0 || (self.areas.len() == 1 && self.areas[0].blocks.is_empty())
+    }
+
+    /// Removes all blocks and sub areas from this function.
+    pub fn reset(&mut self) {
+        self.areas = vec![Box::new(BlockArea::new(16, 16))];
+        self.id_gen = BlockIDGenerator::new();
+        self.generation += 1;
     }
 
     pub fn block_language(&self) -> Rc<RefCell<BlockLanguage>> {
-- 
2.43.0


From 49d137bc92d7088fdc6c796422030acb191a40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:27 +0000
Subject: [PATCH 09/56] fix: save the length of a tracker pattern also if it is
 empty

---
 src/dsp/tracker/pattern.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index bad45c8..ae49e89 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -38,6 +38,10 @@ impl PatternData {
 
 impl PatternData {
     pub fn is_unset(&self) -> bool {
+        if self.rows != MAX_PATTERN_LEN {
+            return false;
+        }
+
         for ct in self.col_types.iter() {
             if *ct != PatternColType::Value {
                 return false;
-- 
2.43.0


From 5d2407c6c9b2172ce39f6c4c60d03ca3b2ad779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:27 +0000
Subject: [PATCH 10/56] fix: don't underflow in the sample player declick ramp
 if it played past the end

---
 src/dsp/node_sampl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 0293add..5d7dbd1 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -241,7 +241,7 @@ impl Sampl {
 
                 // next_sample mutates self.phase, so we need the current phase
                 // that is used for looking up the sample from the audio data.
-                let sample_idx = self.phase.floor() as usize;
+                let sample_idx = self.phase.floor() as usize % sample_slice.len().max(1);
 
                 let mut s =
                     self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
-- 
2.43.0


From 9abe796cea3e54cf59523d7707fe47733ffb9a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:27 +0000
Subject: [PATCH 11/56] fix: keep the defaults of the PVerb ihpf and rhpf
 parameters in their range

---
 src/dsp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 18c4d7a..e5d68e5 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -1758,14 +1758,14 @@ macro_rules! node_list {
                ( 3 size   n_id      d_id  r_id   f_def stp_d  0.0, 1.0, 0.5)
                ( 4 dcy    n_id      d_id  r_id   f_def stp_d  0.0, 1.0, 0.25)
                ( 5 ilpf  n_pit      d_pit r_fq  f_freq stp_d -1.0, 0.5647131, 22050.0)
-               ( 6 ihpf  n_pit      d_pit r_fq  f_freq stp_d -1.0, 0.5647131, 0.0)
+               ( 6 ihpf  n_pit      d_pit r_fq  f_freq stp_d -1.0, 0.5647131, 0.4296875)
                ( 7 dif    n_id      d_id  r_id   f_def stp_d  0.0, 1.0, 1.0)
                ( 8 dmix   n_id      d_id  r_id   f_def stp_d  0.0, 1.0, 1.0)
                ( 9 mspeed n_id      d_id  r_id   f_def stp_d  0.0, 1.0, 0.0)
                (10 mshp   n_id      d_id  r_id   f_def stp_d  0.0, 1.0, 0.5)
                (11 mdepth n_id      d_id  r_id   f_def stp_d  0.0, 1.0, 0.2)
                (12 rlpf  n_pit      d_pit r_fq  f_freq stp_d -1.0, 0.5647131, 22050.0)
-               (13 rhpf  n_pit      d_pit r_fq  f_freq stp_d -1.0, 0.5647131, 0.0)
+               (13 rhpf  n_pit      d_pit r_fq  f_freq stp_d -1.0, 0.5647131, 0.4296875)
                (14 mix   n_id      d_id  r_id   f_def stp_d  0.0, 1.0, 0.5)
                [0 sig_l]
                [1 sig_r],
-- 
2.43.0


From d61d75c7fbb44d25f4672d48db09a0546087e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:52 +0000
Subject: [PATCH 12/56] fix: don't hang the audio thread if the phase of a sine
 is modulated by a very large value

---
 src/dsp/node_sin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_sin.rs b/src/dsp/node_sin.rs
index 7290892..d9fe8c6 100644
--- a/src/dsp/node_sin.rs
+++ b/src/dsp/node_sin.rs
@@ -99,8 +99,8 @@ impl DspNode for Sin {
             let freq = denorm_offs::Sin::freq(freq, det.read(frame), frame);
 
             let mut phase = self.phase + denorm::Sin::pm(pm, frame);
-            while phase < 0.0 {
-                phase += 1.0
+            if phase < 0.0 {
+                phase -= phase.floor();
             }
             last_val = fast_sin(phase.fract() * TWOPI);
             o.write(frame, last_val);
-- 
2.43.0


From bb865420e191b13dc5f58c2a0854ce597b56a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:58 +0000
Subject: [PATCH 13/56] fix: keep the string of the bowed string model long
 enough to be interpolated

With the bow very near one end of a short string the delay line on that
side became shorter than the interpolation needs, and the model ran away
to infinity.
---
 src/dsp/node_bowstri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_bowstri.rs b/src/dsp/node_bowstri.rs
index 6c12895..190f7e0 100644
--- a/src/dsp/node_bowstri.rs
+++ b/src/dsp/node_bowstri.rs
@@ -75,8 +75,8 @@ impl BowedString {
         let total_l = if total_l <= 0.0 { 0.3 } else { total_l };
         let bow_position = ((pos + 1.0) / 2.0).clamp(0.01, 0.99);
 
-        let bow_nut_l = total_l * (1.0 - bow_position);
-        let bow_bridge_l = total_l * bow_position;
+        let bow_nut_l = (total_l * (1.0 - bow_position)).max(2.0);
+        let bow_bridge_l = (total_l * bow_position).max(2.0);
 
         let nut = -self.nut_to_bow.cubic_interpolate_at_s(bow_nut_l);
         let brid = self.bow_to_bridge.cubic_interpolate_at_s(bow_bridge_l);
-- 
2.43.0


From 5cd7e3edf30bc8e876f91009314bc5245e682a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:12 +0000
Subject: [PATCH 14/56] fix: ignore port numbers that a node does not have when
 loading a patch

---
 src/matrix_repr.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index c6146f8..bf97de6 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -25,20 +25,22 @@ fn deserialize_node_id(v: &Value, i1: usize, i2: usize) -> Result<NodeId, Matrix
 }
 
 fn inp2idx(node_id: NodeId, v: &Value) -> i16 {
-    let inp = v.as_i64().unwrap_or(-2) as i16;
-
-    if inp > -2 {
-        inp
+    if let Some(inp) = v.as_i64() {
+        // Ignore inputs that the node does not have:
+        let inp = u8::try_from(inp).ok();
+        inp.filter(|i| node_id.inp_param_by_idx(*i as usize).is_some())
+            .map(|i| i as i16)
+            .unwrap_or(-1)
     } else {
         v.as_str().map(|s| node_id.inp(s).map(|i| i as i16).unwrap_or(-1)).unwrap_or(-1)
     }
 }
 
 fn out2idx(node_id: NodeId, v: &Value) -> i16 {
-    let out = v.as_i64().unwrap_or(-2) as i16;
-
-    if out > -2 {
-        out
+    if let Some(out) = v.as_i64() {
+        // Ignore outputs that the node does not have:
+        let out = u8::try_from(out).ok();
+        out.filter(|i| node_id.out_name_by_idx(*i).is_some()).map(|i| i as i16).unwrap_or(-1)
     } else {
         v.as_str().map(|s| node_id.out(s).map(|i| i as i16).unwrap_or(-1)).unwrap_or(-1)
     }
-- 
2.43.0


From 980ecfbc7749403d162ad12996c839e62db43e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:12 +0000
Subject: [PATCH 15/56] fix: don't let cells outside of the grid overwrite
 others when loading a patch

---
 src/matrix.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 67b3934..d644051 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -924,6 +924,11 @@ impl Matrix {
         }
 
         for cell_repr in repr.cells.iter() {
+            // Don't let cells outside of the grid wrap around (see Cell::from_repr):
+            if cell_repr.x >= self.w || cell_repr.y >= self.h {
+                continue;
+            }
+
             let cell = Cell::from_repr(cell_repr);
             self.place(cell.x as usize, cell.y as usize, cell);
         }
-- 
2.43.0


From 155955b31c69ec5bdb203a2dd505a1529dcd9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:12 +0000
Subject: [PATCH 16/56] fix: limit loaded tracker patterns to the size a
 pattern can have

---
 src/matrix_repr.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index bf97de6..8649e4d 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -153,7 +153,7 @@ impl PatternRepr {
 
         let cts = &v["col_types"];
         if let Value::Array(cts) = cts {
-            for (i, ct) in cts.iter().enumerate() {
+            for (i, ct) in cts.iter().enumerate().take(MAX_COLS) {
                 col_types[i] = ct.as_i64().unwrap_or(0) as u8;
             }
         }
@@ -161,9 +161,9 @@ impl PatternRepr {
         let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];
         let dt = &v["data"];
         if let Value::Array(dt) = dt {
-            for (row_idx, row) in dt.iter().enumerate() {
+            for (row_idx, row) in dt.iter().enumerate().take(MAX_PATTERN_LEN) {
                 if let Value::Array(row) = row {
-                    for (col_idx, c) in row.iter().enumerate() {
+                    for (col_idx, c) in row.iter().enumerate().take(MAX_COLS) {
                         data[row_idx][col_idx] = c.as_i64().unwrap_or(-1) as i32;
                     }
                 }
@@ -173,11 +173,11 @@ impl PatternRepr {
         Ok(Self {
             col_types,
             data,
-            rows: v["rows"].as_i64().unwrap_or(0) as usize,
-            edit_step: v["edit_step"].as_i64().unwrap_or(0) as usize,
+            rows: v["rows"].as_i64().unwrap_or(0).clamp(0, MAX_PATTERN_LEN as i64) as usize,
+            edit_step: v["edit_step"].as_i64().unwrap_or(0).max(0) as usize,
             cursor: (
-                v["cursor_row"].as_i64().unwrap_or(0) as usize,
-                v["cursor_col"].as_i64().unwrap_or(0) as usize,
+                v["cursor_row"].as_i64().unwrap_or(0).max(0) as usize,
+                v["cursor_col"].as_i64().unwrap_or(0).max(0) as usize,
             ),
         })
     }
-- 
2.43.0


From 80650a1432ea293ec4a8d61d9190b0842bee2373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:51 +0000
Subject: [PATCH 17/56] fix: don't hang or panic when loading inconsistent
 block functions

Sub areas that do not exist, are contained more than once or contain
themselves, functions without any area, and absurd positions and sizes
made recalculate_area_sizes() and generate_tree() panic or loop forever.
---
 src/wblockdsp/language.rs | 50 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index ae002b7..5365afe 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -11,6 +11,11 @@ use std::collections::VecDeque;
 
 use serde_json::{json, Value};
 
+/// Blocks of loaded functions are not placed farther away from the origin than this.
+const MAX_LOADED_POS: i64 = 0xFFFF;
+/// Blocks of loaded functions don't have more rows than this.
+const MAX_LOADED_ROWS: i64 = 256;
+
 pub trait BlockView {
     fn rows(&self) -> usize;
     fn contains(&self, idx: usize) -> Option<usize>;
@@ -240,7 +245,7 @@ impl Block {
 
         Ok(Box::new(Block {
             id: v["id"].as_i64().unwrap_or(0) as usize,
-            rows: v["rows"].as_i64().unwrap_or(0) as usize,
+            rows: v["rows"].as_i64().unwrap_or(0).clamp(0, MAX_LOADED_ROWS) as usize,
             contains: (
                 if v["contains"][0].is_i64() {
                     Some(v["contains"][0].as_i64().unwrap_or(0) as usize)
@@ -926,15 +931,15 @@ impl BlockArea {
         let blks = &v["blocks"];
         if let Value::Array(blks) = blks {
             for b in blks.iter() {
-                let x = b["x"].as_i64().unwrap_or(0);
-                let y = b["y"].as_i64().unwrap_or(0);
+                let x = b["x"].as_i64().unwrap_or(0).clamp(-MAX_LOADED_POS, MAX_LOADED_POS);
+                let y = b["y"].as_i64().unwrap_or(0).clamp(-MAX_LOADED_POS, MAX_LOADED_POS);
                 blocks.insert((x, y), Block::deserialize(&b["block"])?);
             }
         }
 
         let size = (
-            v["size"][0].as_i64().unwrap_or(0) as usize,
-            v["size"][1].as_i64().unwrap_or(0) as usize,
+            v["size"][0].as_i64().unwrap_or(0).clamp(0, MAX_LOADED_POS) as usize,
+            v["size"][1].as_i64().unwrap_or(0).clamp(0, MAX_LOADED_POS) as usize,
         );
         let auto_shrink = v["auto_shrink"].as_bool().unwrap_or(true);
         let header = v["header"].as_str().unwrap_or("").to_string();
@@ -1145,11 +1150,44 @@ impl BlockFunSnapshot {
             }
         }
 
+        if a.is_empty() {
+            a.push(Box::new(BlockArea::new(16, 16)));
+        }
+
+        Self::drop_invalid_sub_areas(&mut a);
+
         Ok(BlockFunSnapshot {
             areas: a,
-            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0) as usize,
+            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0).max(0) as usize,
         })
     }
+
+    /// Every area except the first may be contained by one block, and no area may contain
+    /// itself. Other references to sub areas are dropped.
+    fn drop_invalid_sub_areas(areas: &mut [Box<BlockArea>]) {
+        let mut parents: Vec<Option<usize>> = vec![None; areas.len()];
+
+        for area_id in 0..areas.len() {
+            for block in areas[area_id].blocks.values_mut() {
+                for sub_area in [&mut block.contains.0, &mut block.contains.1] {
+                    let sub_id = if let Some(sub_id) = *sub_area { sub_id } else { continue };
+
+                    let mut valid = sub_id > 0 && parents.get(sub_id) == Some(&None);
+                    let mut ancestor = Some(area_id);
+                    while let (true, Some(id)) = (valid, ancestor) {
+                        valid = id != sub_id;
+                        ancestor = parents[id];
+                    }
+
+                    if valid {
+                        parents[sub_id] = Some(area_id);
+                    } else {
+                        *sub_area = None;
+                    }
+                }
+            }
+        }
+    }
 }
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From af8845060278ad5b3079a0ae6ae86f21d85087bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:33 +0000
Subject: [PATCH 18/56] fix: don't panic on the audio thread if the Mux9 in_cnt
 setting is out of range

---
 src/dsp/node_mux9.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_mux9.rs b/src/dsp/node_mux9.rs
index f0c7e45..df87f4b 100644
--- a/src/dsp/node_mux9.rs
+++ b/src/dsp/node_mux9.rs
@@ -151,7 +151,7 @@ impl DspNode for Mux9 {
         let t_down = inp::Mux9::t_down(inputs);
         let out = out::Mux9::sig(outputs);
 
-        let max: u8 = at::Mux9::in_cnt(atoms).i() as u8 + 1;
+        let max: u8 = at::Mux9::in_cnt(atoms).i().clamp(0, 8) as u8 + 1;
         self.idx %= max;
 
         if nctx.in_connected & 0x1 == 0x1 {
-- 
2.43.0


From 2fb29c513912bf6e5a2a8336c900ed939040b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:04 +0000
Subject: [PATCH 19/56] fix: don't use up all memory or panic on the audio
 thread if settings of CQnt are out of range

---
 src/dsp/node_cqnt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_cqnt.rs b/src/dsp/node_cqnt.rs
index 7ed6146..1cf1930 100644
--- a/src/dsp/node_cqnt.rs
+++ b/src/dsp/node_cqnt.rs
@@ -118,7 +118,8 @@ impl DspNode for CQnt {
         let omin = at::CQnt::omin(atoms);
         let omax = at::CQnt::omax(atoms);
 
-        self.quant.update_keys(keys.i(), omin.i(), omax.i());
+        // The settings may come from a patch file:
+        self.quant.update_keys(keys.i() & 0xFFF, omin.i().clamp(0, 4), omax.i().clamp(0, 4));
 
         for frame in 0..ctx.nframes() {
             let pitch = self.quant.signal_to_pitch(denorm::CQnt::inp(inp, frame));
-- 
2.43.0


From dc5f8ea160e960d4a526163ec4feb06d1ee25839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:04 +0000
Subject: [PATCH 20/56] fix: don't panic on the audio thread if the BiqFilt
 order setting is out of range

---
 src/dsp/node_biqfilt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_biqfilt.rs b/src/dsp/node_biqfilt.rs
index 063e0bd..6a37a26 100644
--- a/src/dsp/node_biqfilt.rs
+++ b/src/dsp/node_biqfilt.rs
@@ -146,7 +146,7 @@ impl DspNode for BiqFilt {
             self.ogain = cgain;
         }
 
-        let mut order = order.i() as u8;
+        let mut order = order.i().clamp(0, 3) as u8;
         if ftype == 1 {
             // The resonator just blows up with higher orders.
             order = 0;
-- 
2.43.0


From 6c45cf09e5a5d42118fa2db4fa32d05278ec2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:10 +0000
Subject: [PATCH 21/56] fix: don't load infinite parameters, they can't be
 saved again

---
 src/matrix_repr.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index 8649e4d..222802e 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -229,6 +229,12 @@ impl From<std::io::Error> for MatrixDeserError {
     }
 }
 
+/// Numbers that are too large for a 32 bit float are not valid, because infinite values
+/// could not be saved again.
+fn deserialize_f32(v: &Value) -> Option<f32> {
+    v.as_f64().map(|v| v as f32).filter(|v| v.is_finite())
+}
+
 fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
     match v[0].as_str().unwrap_or("?") {
         "i" => {
@@ -239,8 +245,8 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
             }
         }
         "p" => {
-            if let Some(v) = v[1].as_f64() {
-                Ok(SAtom::param(v as f32))
+            if let Some(v) = deserialize_f32(&v[1]) {
+                Ok(SAtom::param(v))
             } else {
                 Err(MatrixDeserError::InvalidAtom(v.to_string()))
             }
@@ -263,8 +269,8 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
             let mut buf: [f32; 8] = [0.0; 8];
 
             for i in 0..8 {
-                if let Some(v) = v[i + 1].as_f64() {
-                    buf[i] = v as f32;
+                if let Some(v) = deserialize_f32(&v[i + 1]) {
+                    buf[i] = v;
                 } else {
                     return Err(MatrixDeserError::InvalidAtom(v.to_string()));
                 }
@@ -371,8 +377,8 @@ impl MatrixRepr {
                 if let Some(param_id) = param_id {
                     m.params.push((
                         param_id,
-                        v[3].as_f64().unwrap_or(0.0) as f32,
-                        v[4].as_f64().map(|v| v as f32),
+                        deserialize_f32(&v[3]).unwrap_or(0.0),
+                        deserialize_f32(&v[4]),
                     ));
                 } else {
                     return Err(MatrixDeserError::UnknownParamId(v.to_string()));
-- 
2.43.0


From 07abc860a160b2fc5e1f43af27777277c1227d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 22/56] fix: don't allocate when logging on the audio thread
 and don't mix up or panic on long log messages

---
 src/log.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index 8f5bfd7..83f3853 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -58,14 +58,15 @@ impl LogReceiver {
 
     pub fn retrieve_messages<F: FnMut(&str, &str)>(&mut self, mut f: F) {
         for (name, consumer) in self.consumers.iter_mut() {
-            let mut buf = [0; 1024];
+            // A message can't be longer than the ring buffer it came through:
+            let mut buf = [0; MAX_LOG_BUFFER];
             let mut oi = 0;
 
             while let Some(byte) = consumer.pop() {
-                if oi >= buf.len() || byte == 0xFF {
-                    f(name, std::str::from_utf8(&buf[0..oi]).unwrap());
+                if byte == 0xFF {
+                    f(name, &String::from_utf8_lossy(&buf[0..oi]));
                     oi = 0;
-                } else {
+                } else if oi < buf.len() {
                     buf[oi] = byte;
                     oi += 1;
                 }
@@ -96,26 +97,25 @@ pub struct Log {
 }
 
 impl Log {
+    /// Sends the message including the 0xFF byte that ends it. If there is not enough space,
+    /// the whole message is dropped, so that it can't be mixed up with others.
     pub fn log_buf(&mut self, data: &[u8]) {
-        self.producer.push_slice(data);
-        let _ = self.producer.push(0xFF);
+        if self.producer.remaining() > data.len() {
+            self.producer.push_iter(&mut data.iter().copied().chain(std::iter::once(0xFF)));
+        }
     }
 
     pub fn log<F: Fn(&mut std::io::BufWriter<&mut [u8]>)>(&mut self, f: F) {
-        self.buf.fill(0xFF);
+        let mut buf = self.buf;
 
         let len = {
-            let mut bw = std::io::BufWriter::new(&mut self.buf[..]);
+            // The capacity is 0, to write directly to `buf` and not to allocate:
+            let mut bw = std::io::BufWriter::with_capacity(0, &mut buf[..]);
             f(&mut bw);
-            bw.buffer().len()
+            self.buf.len() - bw.get_ref().len()
         };
 
-        if len < (self.buf.len() - 1) {
-            // include one 0xFF!
-            self.producer.push_slice(&self.buf[0..len + 1]);
-        } else {
-            self.producer.push_slice(&self.buf[0..len]);
-        }
+        self.log_buf(&buf[0..len]);
     }
 }
 
-- 
2.43.0


From 62efa561c6ffe3cbff1904326d0f972a0da44cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 23/56] fix: don't free the state of Code nodes while the
 executor still runs them

---
 src/nodes/node_conf.rs |  9 +++++----
 src/nodes/node_exec.rs | 11 +++++++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index b25fffa..c0ba439 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -266,10 +266,10 @@ pub(crate) struct SharedNodeConf {
     pub(crate) sample_rate: Arc<AtomicFloat>,
 }
 
-use super::node_exec::SharedNodeExec;
+use super::node_exec::{KeepNodeGlobal, SharedNodeExec};
 
 impl SharedNodeConf {
-    pub(crate) fn new() -> (Self, SharedNodeExec) {
+    pub(crate) fn new(node_global: &NodeGlobalRef) -> (Self, SharedNodeExec) {
         let rb_graph = RingBuffer::new(NODE_COMMUNICATION_BUFFER_SIZE);
         let rb_drop = RingBuffer::new(NODE_COMMUNICATION_BUFFER_SIZE);
         let rb_ev = RingBuffer::new(NODE_COMMUNICATION_BUFFER_SIZE);
@@ -309,6 +309,7 @@ impl SharedNodeConf {
                 graph_event_prod: rb_ev_prod,
                 monitor_backend,
                 sample_rate,
+                _keep_global: KeepNodeGlobal(node_global.clone()),
             },
         )
     }
@@ -318,10 +319,10 @@ impl NodeConfigurator {
     pub(crate) fn new() -> (Self, SharedNodeExec) {
         let nodes = Vec::new();
 
-        let (shared, shared_exec) = SharedNodeConf::new();
-
         let node_global = NodeGlobalData::new_ref();
 
+        let (shared, shared_exec) = SharedNodeConf::new(&node_global);
+
         (
             NodeConfigurator {
                 nodes,
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 2fb26a9..c66a1a3 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -9,6 +9,7 @@ use super::{
 use crate::dsp::{Node, NodeContext, MAX_BLOCK_SIZE};
 use crate::monitor::{MonitorBackend, MON_SIG_CNT};
 use crate::util::Smoother;
+use crate::NodeGlobalRef;
 use synfx_dsp::AtomicFloat;
 
 use crate::log;
@@ -84,8 +85,18 @@ pub(crate) struct SharedNodeExec {
     pub(crate) monitor_backend: MonitorBackend,
     /// The current sample rate of the backend
     pub(crate) sample_rate: Arc<AtomicFloat>,
+    /// Keeps the state of the nodes alive, as long as they might be executed.
+    pub(crate) _keep_global: KeepNodeGlobal,
 }
 
+/// Prevents that the [NodeGlobalRef] is dropped with the [crate::nodes::NodeConfigurator],
+/// while the [NodeExecutor] still runs nodes that refer to data in it
+/// (the `Code` node uses state that belongs to it's code engine).
+/// It is never accessed from the backend.
+pub(crate) struct KeepNodeGlobal(#[allow(dead_code)] pub(crate) NodeGlobalRef);
+
+unsafe impl Send for KeepNodeGlobal {}
+
 /// Contains audio driver context informations. Such as the number
 /// of frames of the current buffer period and allows
 /// writing output samples and reading input samples.
-- 
2.43.0


From 45d8927524d1688707c7ddaa5c500547a2e1712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:17 +0000
Subject: [PATCH 24/56] fix: don't rewrite the shared cosine table while other
 engines are using it

---
 src/nodes/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 4e147e6..2fc94b1 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -81,6 +81,8 @@ pub enum GraphEvent {
 
 pub const UNUSED_MONITOR_IDX: usize = 99999;
 
+static INIT_COS_TAB: std::sync::Once = std::sync::Once::new();
+
 /// Creates a [NodeConfigurator] and a [NodeExecutor] which are interconnected
 /// by ring buffers.
 pub fn new_node_engine() -> (NodeConfigurator, NodeExecutor) {
@@ -89,7 +91,8 @@ pub fn new_node_engine() -> (NodeConfigurator, NodeExecutor) {
 
     // XXX: This is one of the earliest and most consistent points
     //      in runtime to do this kind of initialization:
-    synfx_dsp::init_cos_tab();
+    // The table is shared by all engines, don't write it again while others are using it:
+    INIT_COS_TAB.call_once(synfx_dsp::init_cos_tab);
 
     (nc, ne)
 }
-- 
2.43.0


From 3cb1d628704ccb9d28cfa21f8d26b956581786a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:26 +0000
Subject: [PATCH 25/56] fix: don't race with the audio thread when a Code node
 is created again

---
 src/dsp/node_code.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dsp/node_code.rs b/src/dsp/node_code.rs
index a9d0f9c..4f325f5 100644
--- a/src/dsp/node_code.rs
+++ b/src/dsp/node_code.rs
@@ -16,6 +16,7 @@ pub struct Code {
     #[cfg(feature = "synfx-dsp-jit")]
     backend: Option<CodeEngineBackend>,
     srate: f64,
+    srate_changed: bool,
 }
 
 impl std::fmt::Debug for Code {
@@ -30,6 +31,7 @@ impl Clone for Code {
             #[cfg(feature = "synfx-dsp-jit")]
             backend: None,
             srate: self.srate,
+            srate_changed: true,
         }
     }
 }
@@ -53,6 +55,7 @@ impl Code {
             #[cfg(feature = "synfx-dsp-jit")]
             backend,
             srate: 48000.0,
+            srate_changed: true,
         }
     }
 
@@ -104,11 +107,10 @@ Some ideas how to use this, you can build your own:
 
 impl DspNode for Code {
     fn set_sample_rate(&mut self, srate: f32) {
+        // This is also called by the frontend for new nodes. The code engine might still be
+        // used by a previous node on the audio thread, so the rate is set in `process`.
         self.srate = srate as f64;
-        #[cfg(feature = "synfx-dsp-jit")]
-        if let Some(backend) = self.backend.as_mut() {
-            backend.set_sample_rate(srate);
-        }
+        self.srate_changed = true;
     }
 
     fn reset(&mut self) {
@@ -152,6 +154,11 @@ impl DspNode for Code {
                 return;
             };
 
+            if self.srate_changed {
+                backend.set_sample_rate(self.srate as f32);
+                self.srate_changed = false;
+            }
+
             backend.process_updates();
 
             let mut ret = 0.0;
-- 
2.43.0


From 4f25615d6dffdee741ecfc6538f12fcbb08b5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:14 +0000
Subject: [PATCH 26/56] fix: play injected MIDI events in the order they were
 injected

---
 src/nodes/node_exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index c66a1a3..b982edc 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -357,7 +357,7 @@ impl NodeExecutor {
         self.exec_ctx.midi_ccs.clear();
 
         if self.injected_midi.len() > 0 {
-            for ev in self.injected_midi.iter().rev() {
+            for ev in self.injected_midi.iter() {
                 let ev = HxTimedEvent::new_timed(0, *ev);
                 if ev.is_cc() {
                     self.exec_ctx.midi_ccs.push(ev);
-- 
2.43.0


From 13d3d038e5207defd494f20ed1f5034e5505812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:14 +0000
Subject: [PATCH 27/56] fix: don't lose the retrigger of the MidiP gate if two
 notes start on the same frame

---
 src/dsp/node_midip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_midip.rs b/src/dsp/node_midip.rs
index 6dbe1c3..1fcde25 100644
--- a/src/dsp/node_midip.rs
+++ b/src/dsp/node_midip.rs
@@ -141,7 +141,7 @@ impl DspNode for MidiP {
                             continue;
                         }
 
-                        if self.cur_gate > 0 {
+                        if self.cur_gate > 0 || self.next_gate > 0 {
                             self.next_gate = 1;
                             self.cur_gate = 0;
                         } else {
-- 
2.43.0


From e23c4f4cfffbbdfce5886800778adbac27f692e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:14 +0000
Subject: [PATCH 28/56] fix: update all outputs of MidiCC that have the same
 controller assigned

---
 src/dsp/node_midicc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index d80da81..8a0b615 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -120,10 +120,12 @@ impl DspNode for MidiCC {
                     if cc == midicc_cc1 {
                         self.cur_cc1 = value;
                         change = true;
-                    } else if cc == midicc_cc2 {
+                    }
+                    if cc == midicc_cc2 {
                         self.cur_cc2 = value;
                         change = true;
-                    } else if cc == midicc_cc3 {
+                    }
+                    if cc == midicc_cc3 {
                         self.cur_cc3 = value;
                         change = true;
                     }
-- 
2.43.0


From 0e9f2a46bcf8374a6ebdb4e002f8fead40132bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:14 +0000
Subject: [PATCH 29/56] fix: make the slew time of MidiCC and the external
 parameter nodes independent of the sample rate

---
 src/dsp/node_ext.rs    | 6 +++++-
 src/dsp/node_midicc.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_ext.rs b/src/dsp/node_ext.rs
index 48dfadc..f6131a4 100644
--- a/src/dsp/node_ext.rs
+++ b/src/dsp/node_ext.rs
@@ -59,7 +59,11 @@ react to MIDI CC messages.
         }
 
         impl DspNode for $name {
-            fn set_sample_rate(&mut self, _srate: f32) {}
+            fn set_sample_rate(&mut self, srate: f32) {
+                self.slew1.set_sample_rate(srate);
+                self.slew2.set_sample_rate(srate);
+                self.slew3.set_sample_rate(srate);
+            }
             fn reset(&mut self) {}
 
             #[inline]
diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index 8a0b615..24fbbf8 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -73,7 +73,11 @@ If you need different ~~slew~~ values for the CCs, I recommend creating other
 }
 
 impl DspNode for MidiCC {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.slew_cc1.set_sample_rate(srate);
+        self.slew_cc2.set_sample_rate(srate);
+        self.slew_cc3.set_sample_rate(srate);
+    }
     fn reset(&mut self) {}
 
     #[inline]
-- 
2.43.0


From ead988ad71c228de3cc220cdb8cfd5767ba1583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:49 +0000
Subject: [PATCH 30/56] fix: restart the fixed length MidiP gate also if the
 previous note was just released

---
 src/dsp/node_midip.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_midip.rs b/src/dsp/node_midip.rs
index 1fcde25..e1ce385 100644
--- a/src/dsp/node_midip.rs
+++ b/src/dsp/node_midip.rs
@@ -157,7 +157,8 @@ impl DspNode for MidiP {
                             continue;
                         }
 
-                        if self.cur_note == note {
+                        // (a fixed gate length does not depend on the note off)
+                        if self.cur_note == note && gmode != 2 {
                             self.next_gate = -1;
                         }
                     }
-- 
2.43.0


From 06667261c99be7759bf7aa9d55705aef9696f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:05 +0000
Subject: [PATCH 31/56] fix: monitor the minimum and maximum also of signals
 beyond +-100

---
 src/monitor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/monitor.rs b/src/monitor.rs
index 52e7f06..be60c6a 100644
--- a/src/monitor.rs
+++ b/src/monitor.rs
@@ -113,7 +113,7 @@ impl MonitorMinMax {
             sig_idx,
             buf: [(0.0, 0.0); MONITOR_MINMAX_SAMPLES],
             buf_write_ptr: 0,
-            cur_min_max: (100.0, -100.0, 0),
+            cur_min_max: (f32::INFINITY, f32::NEG_INFINITY, 0),
         }
     }
 
@@ -133,8 +133,8 @@ impl MonitorMinMax {
 
                 self.buf_write_ptr = (self.buf_write_ptr + 1) % self.buf.len();
 
-                self.cur_min_max.0 = 100.0;
-                self.cur_min_max.1 = -100.0;
+                self.cur_min_max.0 = f32::INFINITY;
+                self.cur_min_max.1 = f32::NEG_INFINITY;
                 self.cur_min_max.2 = 0;
             }
         }
-- 
2.43.0


From 2e21885bc554f940c88083e2d2cd55c6c6bd5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:30 +0000
Subject: [PATCH 32/56] fix: update all columns of the tracker if the length of
 the pattern changes

---
 src/dsp/tracker/pattern.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index ae49e89..8f8f95f 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -128,6 +128,10 @@ impl PatternData {
         }
     }
 
+    pub(crate) fn modified_all_cols(&mut self) {
+        self.dirty_col = [true; MAX_COLS];
+    }
+
     pub fn col_is_modified_reset(&mut self, col: usize) -> bool {
         if self.dirty_col.get(col).copied().unwrap_or(false) {
             self.dirty_col[col] = false;
@@ -368,7 +372,9 @@ impl UIPatternModel for PatternData {
 
     fn set_rows(&mut self, rows: usize) {
         self.rows = rows.min(self.data.len());
-        self.modified_col(0); // modify any col, so we send an update.
+        // The last row is the end of the interpolation in value columns,
+        // so all columns need an update.
+        self.modified_all_cols();
         self.generation += 1;
     }
 
-- 
2.43.0


From 0e98b2b5ab03491575b6229ca62802853ae417ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:30 +0000
Subject: [PATCH 33/56] fix: don't lose pattern changes if the update queue of
 the tracker is full

---
 src/dsp/tracker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index ea8c745..1cdfa30 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -87,6 +87,11 @@ impl Tracker {
     }
 
     pub fn send_one_update(&mut self) -> bool {
+        // Keep the changes until there is space again.
+        if self.data_prod.is_full() {
+            return false;
+        }
+
         let mut data = self.data.lock().unwrap();
 
         for col in 0..MAX_COLS {
-- 
2.43.0


From 396bcfc73d3b0ea9cc6718461019b19ec68c0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:30 +0000
Subject: [PATCH 34/56] fix: send the pattern to the new tracker sequencer
 after the matrix was cleared

---
 src/dsp/tracker/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index 1cdfa30..b81173a 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -122,6 +122,9 @@ impl Tracker {
             self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));
             self.data_prod = prod;
             self.seq_cons = Some(con);
+
+            // The new sequencer does not know anything about the pattern yet.
+            self.data.lock().unwrap().modified_all_cols();
         }
 
         let seq = self.seq.take().unwrap();
-- 
2.43.0


From f1862c7aa55285c5f427f580c050de522f257133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:30 +0000
Subject: [PATCH 35/56] fix: don't overflow when changing a pattern value by a
 large offset

---
 src/dsp/tracker/pattern.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 8f8f95f..556a5e4 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -246,8 +246,8 @@ impl PatternData {
 
 impl dyn UIPatternModel {
     pub fn change_value(&mut self, row: usize, col: usize, offs: i16) {
-        let val = self.get_cell_value(row, col) as i16;
-        let val = (val + offs).max(0).min(0xfff);
+        let val = self.get_cell_value(row, col) as i32;
+        let val = (val + offs as i32).max(0).min(0xfff);
         self.set_cell_value(row, col, val as u16);
     }
 }
-- 
2.43.0


From 57d524bcdac1a6e070a391b5bec354d22534ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:30 +0000
Subject: [PATCH 36/56] fix: roll the dice for a tracker gate each time the row
 is played

---
 src/dsp/tracker/sequencer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dsp/tracker/sequencer.rs b/src/dsp/tracker/sequencer.rs
index 6ea6a7e..61d7458 100644
--- a/src/dsp/tracker/sequencer.rs
+++ b/src/dsp/tracker/sequencer.rs
@@ -182,6 +182,9 @@ impl PatternSequencer {
                     }
                     continue;
                 }
+            } else {
+                // Another row was played, so roll the dice again next time.
+                self.rand_vals[col_idx].0 = 99999;
             }
 
             if (gate & 0xF000) > 0 {
-- 
2.43.0


From c8f5066c66edbac891be570c8af3b1f2b5303a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:49 +0000
Subject: [PATCH 37/56] fix: the sample rate identifiers of the block language
 name the JIT's variables

---
 src/wblockdsp/definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wblockdsp/definition.rs b/src/wblockdsp/definition.rs
index c92cc36..6a05ac2 100644
--- a/src/wblockdsp/definition.rs
+++ b/src/wblockdsp/definition.rs
@@ -247,8 +247,8 @@ pub fn setup_hxdsp_block_language(
 
     lang.define_identifier("in1");
     lang.define_identifier("in2");
-    lang.define_identifier("israte");
-    lang.define_identifier("srate");
+    lang.define_identifier("$israte");
+    lang.define_identifier("$srate");
     lang.define_identifier("alpha");
     lang.define_identifier("beta");
     lang.define_identifier("delta");
-- 
2.43.0


From 137d8cbf773aa3c9cd312d28d11a49ef99eb429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:58 +0000
Subject: [PATCH 38/56] fix: compile the pi literal blocks

---
 src/wblockdsp/compiler.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index e431724..0cc6357 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -414,6 +414,8 @@ impl Block2JITCompiler {
             BlkASTNode::Node { id, typ, childs, .. } => match &typ[..] {
                 "if" => Err(BlkJITCompileError::UnknownError),
                 "zero" => Ok(literal(0.0)),
+                "π" => Ok(literal(std::f64::consts::PI)),
+                "2π" => Ok(literal(std::f64::consts::TAU)),
                 _ => {
                     if *id == 0 {
                         return Err(BlkJITCompileError::NodeWithoutID(typ.to_string()));
-- 
2.43.0


From 728caa272e8e453be446570f2be5e737312cc88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:58 +0000
Subject: [PATCH 39/56] fix: assign the shared values of a block before they
 are used if its ports were shifted

---
 src/wblockdsp/compiler.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index 0cc6357..557313b 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -311,10 +311,25 @@ impl Block2JITCompiler {
                 }
             }
             optype => {
+                // The arguments are evaluated in the input order of the BlockLanguage, even
+                // if the ports were shifted. So the temporary variables for shared nodes must
+                // be assigned in that order too:
+                let mut args = vec![];
+                let mut i = 0;
+                while let Some(arg) = node.nth_child(i) {
+                    args.push(arg);
+                    i += 1;
+                }
+
+                if let Some(inputs) = self.lang.borrow().get_type_inputs(optype) {
+                    args.sort_by_key(|(inp, _, _)| {
+                        inputs.iter().position(|i| i.as_ref() == Some(inp))
+                    });
+                }
+
                 let mut childs = vec![];
 
-                let mut i = 0;
-                while let Some((inp, out, child)) = node.nth_child(i) {
+                for (inp, out, child) in args {
                     let out = if out.len() > 0 { Some(out) } else { None };
 
                     let child = self.trans2bjit(&child, out)?;
@@ -323,12 +338,8 @@ impl Block2JITCompiler {
                     } else {
                         childs.push((None, child));
                     }
-                    i += 1;
                 }
 
-                // TODO: Reorder the childs/arguments according to the input
-                //       order in the BlockLanguage
-
                 let cnt = self.lang.borrow().type_output_count(optype);
                 if cnt > 1 {
                     let mut area = vec![];
-- 
2.43.0


From f73c9c28638d7a7533aefded30a2ce40cc07f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:58 +0000
Subject: [PATCH 40/56] fix: upload block functions to new Code nodes and don't
 mix up the states of unrelated blocks

---
 src/global.rs             | 23 ++++++++++++++++++-----
 src/wblockdsp/compiler.rs | 10 ++++++++--
 src/wblockdsp/language.rs | 17 +++++++++++++++++
 3 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/global.rs b/src/global.rs
index ad6e153..36d375f 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -39,7 +39,7 @@ pub struct NodeGlobalData {
     /// for the `Code` nodes. The code is then sent via the [CodeEngine]
     /// in [NodeConfigurator::check_block_function].
     #[cfg(feature = "synfx-dsp-jit")]
-    block_functions: HashMap<usize, (u64, Arc<Mutex<BlockFun>>)>,
+    block_functions: HashMap<usize, (Option<u64>, Arc<Mutex<BlockFun>>)>,
     /// Holds the communication handles to send [crate::dsp::DynamicNode1x1] instances
     /// to their corresponding `Rust1x1` DSP nodes.
     dyn_nodes1x1: HashMap<usize, DynNodeHandle<Box<dyn DynamicNode1x1>>>,
@@ -173,6 +173,12 @@ impl NodeGlobalData {
     /// to the previously returned [CodeEngineBackend].
     #[cfg(feature = "synfx-dsp-jit")]
     pub fn get_code_engine_backend(&mut self, index: usize) -> CodeEngineBackend {
+        // The new backend does not know about the block function yet, the next call
+        // to [NodeGlobalData::check_code] needs to upload it again:
+        if let Some((generation, _)) = self.block_functions.get_mut(&index) {
+            *generation = None;
+        }
+
         self.get_code_engine(index).get_backend()
     }
 
@@ -187,7 +193,7 @@ impl NodeGlobalData {
 
             if !self.block_functions.contains_key(&id) {
                 self.block_functions
-                    .insert(id, (0, Arc::new(Mutex::new(BlockFun::new(lang.clone())))));
+                    .insert(id, (Some(0), Arc::new(Mutex::new(BlockFun::new(lang.clone())))));
             }
 
             self.block_functions.get(&id).map(|pair| pair.1.clone())
@@ -220,9 +226,16 @@ impl NodeGlobalData {
             self.get_code_engine(id).query_returns();
 
             if let Some((generation, block_fun)) = self.block_functions.get_mut(&id) {
-                if let Ok(block_fun) = block_fun.lock() {
-                    if *generation != block_fun.generation() {
-                        *generation = block_fun.generation();
+                if let Ok(mut block_fun) = block_fun.lock() {
+                    let cur_generation = block_fun.generation();
+
+                    // (a function that was never edited has nothing to upload)
+                    if cur_generation != 0 && *generation != Some(cur_generation) {
+                        if generation.is_none() {
+                            block_fun.reset_block_states();
+                        }
+
+                        *generation = Some(cur_generation);
                         let mut compiler = Block2JITCompiler::new(block_fun.block_language());
                         let ast = compiler.compile(&block_fun)?;
 
diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index 557313b..84d1561 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -206,6 +206,7 @@ pub struct Block2JITCompiler {
     idout_var_map: HashMap<String, String>,
     lang: Rc<RefCell<BlockLanguage>>,
     tmpvar_counter: usize,
+    state_epoch: u32,
 }
 
 #[cfg(not(feature = "synfx-dsp-jit"))]
@@ -215,7 +216,7 @@ pub enum ASTNode {
 
 impl Block2JITCompiler {
     pub fn new(lang: Rc<RefCell<BlockLanguage>>) -> Self {
-        Self { idout_var_map: HashMap::new(), lang, tmpvar_counter: 0 }
+        Self { idout_var_map: HashMap::new(), lang, tmpvar_counter: 0, state_epoch: 0 }
     }
 
     pub fn next_tmpvar_name(&mut self, extra: &str) -> String {
@@ -501,7 +502,10 @@ impl Block2JITCompiler {
                                 _ => Err(BlkJITCompileError::UnknownType(typ.to_string())),
                             }
                         }
-                        _ => Ok(call(typ, *id as u64, &args[..])),
+                        _ => {
+                            let uid = ((self.state_epoch as u64) << 32) | *id as u64;
+                            Ok(call(typ, uid, &args[..]))
+                        }
                     }
                 }
             },
@@ -512,6 +516,8 @@ impl Block2JITCompiler {
     pub fn compile(&mut self, fun: &BlockFun) -> Result<Box<ASTNode>, BlkJITCompileError> {
         #[cfg(feature = "synfx-dsp-jit")]
         {
+            self.state_epoch = fun.state_epoch();
+
             let tree = fun.generate_tree::<ASTNodeRef>("zero").unwrap();
             println!("{}", tree.walk_dump("", "", 0));
 
diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 5365afe..570451d 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1198,6 +1198,8 @@ pub struct BlockFun {
     area_work_dq: VecDeque<usize>,
     id_gen: BlockIDGenerator,
     generation: u64,
+    /// Counts how often the block IDs were reassigned, see also [BlockFun::state_epoch].
+    state_epoch: u32,
 }
 
 #[derive(Debug)]
@@ -1217,9 +1219,22 @@ impl BlockFun {
             area_work_dq: VecDeque::new(),
             id_gen: BlockIDGenerator::new(),
             generation: 0,
+            state_epoch: 0,
         }
     }
 
+    /// Block IDs only identify the state of a block within the same epoch. After the function
+    /// was reset or replaced by a snapshot, the same ID might refer to a completely different
+    /// block.
+    pub fn state_epoch(&self) -> u32 {
+        self.state_epoch
+    }
+
+    /// Lets all blocks start with a fresh state the next time this function is compiled.
+    pub fn reset_block_states(&mut self) {
+        self.state_epoch += 1;
+    }
+
     pub fn is_unset(&self) -> bool {
         self.generation == 0 || (self.areas.len() == 1 && self.areas[0].blocks.is_empty())
     }
@@ -1228,6 +1243,7 @@ impl BlockFun {
     pub fn reset(&mut self) {
         self.areas = vec![Box::new(BlockArea::new(16, 16))];
         self.id_gen = BlockIDGenerator::new();
+        self.reset_block_states();
         self.generation += 1;
     }
 
@@ -1263,6 +1279,7 @@ impl BlockFun {
         self.areas = repr.areas.iter().cloned().collect();
         self.id_gen = BlockIDGenerator::new_with_id(repr.cur_id);
         self.recalculate_area_sizes();
+        self.reset_block_states();
         self.generation += 1;
     }
 
-- 
2.43.0


From 1aed02de894ddca0e67c02b1cd7858306f1f6ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:03 +0000
Subject: [PATCH 41/56] fix: block editor operations that fail leave the
 function unchanged, fillers don't overlap

---
 src/wblockdsp/language.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 570451d..0526777 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -125,6 +125,10 @@ impl Block {
             v.resize(self.rows, None);
         }
 
+        if idx >= v.len() {
+            return;
+        }
+
         let idx_from = idx;
         let idx_to = (idx + 1) % v.len();
         let elem = v.remove(idx_from);
@@ -537,10 +541,20 @@ impl BlockChain {
         xoffs: i64,
         yoffs: i64,
     ) -> bool {
+        let mut used: HashSet<(i64, i64)> = HashSet::new();
+
         for (block, x, y) in self.load.iter() {
             if !area.check_space_at(*x + xoffs, *y + yoffs, block.rows) {
                 return false;
             }
+
+            // The loaded blocks must not overlap each other either, fillers might be
+            // multiple rows high.
+            for r in 0..block.rows {
+                if !used.insert((*x, *y + (r as i64))) {
+                    return false;
+                }
+            }
         }
 
         true
@@ -1605,8 +1619,6 @@ impl BlockFun {
             return Err(BlockDSPError::UnknownArea(id));
         };
 
-        self.create_areas_for_block(block.as_mut());
-
         // check if the user grabbed at a different row than the top row:
         if y > yo {
             // if so, adjust the destination:
@@ -1618,7 +1630,11 @@ impl BlockFun {
         let rows = block.rows;
 
         if area2.check_space_at(x2, y2, block.rows) {
-            area2.set_block_at(x2, y2, block);
+            self.create_areas_for_block(block.as_mut());
+
+            if let Some(area2) = self.areas.get_mut(id2) {
+                area2.set_block_at(x2, y2, block);
+            }
             self.generation += 1;
             Ok(())
         } else {
@@ -1744,6 +1760,10 @@ impl BlockFun {
             return Err(BlockDSPError::CircularAction(id, id2));
         }
 
+        if id2 >= self.areas.len() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         let (block, xo, yo) = if let Some(area) = self.areas.get_mut(id) {
             area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?
         } else {
-- 
2.43.0


From 66be778ea66aa22dd5e28197d83f1f075e7b27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:55 +0000
Subject: [PATCH 42/56] fix: list the SMap settings in the order of their
 indices

---
 src/dsp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index e5d68e5..0bb66d8 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -1458,8 +1458,8 @@ macro_rules! node_list {
                (0 inp   n_id       d_id   r_id  f_def  stp_d -1.0, 1.0, 0.0)
                (1 min   n_id       d_id   r_s   f_def  stp_d -1.0, 1.0, -1.0)
                (2 max   n_id       d_id   r_s   f_def  stp_d -1.0, 1.0, 1.0)
-               {3 1 mode setting(0) mode fa_smap_mode 0  3}
-               {4 0 clip setting(0) mode fa_smap_clip 0  1}
+               {3 0 mode setting(0) mode fa_smap_mode 0  3}
+               {4 1 clip setting(0) mode fa_smap_clip 0  1}
                [0 sig],
             map => Map UIType::Generic UICategory::Ctrl
                (0 inp   n_id       d_id   r_id  f_def  stp_d -1.0, 1.0, 0.0)
-- 
2.43.0


From 6285678506d4f5c6a37afbfd467a2a9e5e8c5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 43/56] fix: cells know their position from the beginning and
 paths lead across large grids

---
 src/cell_dir.rs | 4 ++--
 src/matrix.rs   | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cell_dir.rs b/src/cell_dir.rs
index f667ff5..7851f97 100644
--- a/src/cell_dir.rs
+++ b/src/cell_dir.rs
@@ -82,7 +82,7 @@ impl CellDir {
             //d// println!("ITER START: A={:?} B={:?}", a, b);
             defensive_max -= 1;
 
-            let mut min_distance = 99999.0;
+            let mut min_distance = f32::INFINITY;
             let mut min_dir = CellDir::C;
             let mut min_new_a = a;
 
@@ -105,7 +105,7 @@ impl CellDir {
                 }
             }
 
-            if min_distance < 99999.0 {
+            if min_distance < f32::INFINITY {
                 //d// println!("A={:?} => {:?} DIR={:?} B={:?}", a, min_new_a, min_dir, b);
                 a = min_new_a;
                 path.push(min_dir);
diff --git a/src/matrix.rs b/src/matrix.rs
index d644051..e31dd9b 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -525,8 +525,9 @@ unsafe impl Send for Matrix {}
 
 impl Matrix {
     pub fn new(config: NodeConfigurator, w: usize, h: usize) -> Self {
-        let mut matrix: Vec<Cell> = Vec::new();
-        matrix.resize(w * h, Cell::empty(NodeId::Nop));
+        let matrix: Vec<Cell> = (0..w * h)
+            .map(|i| Cell::empty_at(NodeId::Nop, (i / h) as u8, (i % h) as u8))
+            .collect();
 
         Self {
             monitored_cell: Cell::empty(NodeId::Nop),
@@ -802,7 +803,7 @@ impl Matrix {
     /// Clears the contents of the matrix. It's completely empty after this.
     pub fn clear(&mut self) {
         for cell in self.matrix.iter_mut() {
-            *cell = Cell::empty(NodeId::Nop);
+            *cell = Cell::empty(NodeId::Nop).with_pos_of(*cell);
         }
 
         self.graph_ordering.clear();
-- 
2.43.0


From f03d33577a2ea93a08c9ae4e24752a1c6e8da0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 44/56] fix: don't mix up nodes if there are more than 256 of
 them

---
 src/nodes/node_conf.rs | 18 ++++++++++++++----
 src/nodes/node_exec.rs |  2 +-
 src/nodes/node_prog.rs |  2 +-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index c0ba439..3f498da 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -74,7 +74,7 @@ impl NodeInstance {
 
     pub fn as_op(&self) -> NodeOp {
         NodeOp {
-            idx: self.prog_idx as u8,
+            idx: self.prog_idx,
             node: self.node.clone(),
             out_idxlen: (self.out_start, self.out_end),
             in_idxlen: (self.in_start, self.in_end),
@@ -283,8 +283,9 @@ impl SharedNodeConf {
         let (monitor_backend, monitor) = new_monitor_processor();
 
         let mut node_ctx_values = Vec::new();
+        // The two extra values are written by all the nodes, that don't get values of their own:
         node_ctx_values
-            .resize_with(NODE_COMMUNICATION_BUFFER_SIZE, || Arc::new(AtomicFloat::new(0.0)));
+            .resize_with(NODE_COMMUNICATION_BUFFER_SIZE + 2, || Arc::new(AtomicFloat::new(0.0)));
 
         let mut exec_node_ctx_vals = Vec::new();
         for ctx_val in node_ctx_values.iter() {
@@ -579,7 +580,7 @@ impl NodeConfigurator {
     /// or the phase of an oscillator.
     pub fn phase_value_for(&self, ni: &NodeId) -> f32 {
         if let Some(idx) = self.unique_index_for(ni) {
-            self.shared.node_ctx_values[(idx * 2) + 1].get()
+            self.ctx_value((idx * 2) + 1)
         } else {
             0.0
         }
@@ -592,7 +593,16 @@ impl NodeConfigurator {
     /// of the primary signal output.
     pub fn led_value_for(&self, ni: &NodeId) -> f32 {
         if let Some(idx) = self.unique_index_for(ni) {
-            self.shared.node_ctx_values[idx * 2].get()
+            self.ctx_value(idx * 2)
+        } else {
+            0.0
+        }
+    }
+
+    /// There are only context values for the first nodes, the others show nothing.
+    fn ctx_value(&self, ctx_idx: usize) -> f32 {
+        if ctx_idx < NODE_COMMUNICATION_BUFFER_SIZE {
+            self.shared.node_ctx_values[ctx_idx].get()
         } else {
             0.0
         }
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index b982edc..e649a3d 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -497,7 +497,7 @@ impl NodeExecutor {
             let inp = op.in_idxlen;
             let at = op.at_idxlen;
             let md = op.mod_idxlen;
-            let ctx_idx = op.idx as usize * 2;
+            let ctx_idx = (op.idx * 2).min(ctx_vals.len() - 2);
 
             for modop in prog.modops[md.0..md.1].iter_mut() {
                 modop.process(nframes);
diff --git a/src/nodes/node_prog.rs b/src/nodes/node_prog.rs
index 2759526..2399d76 100644
--- a/src/nodes/node_prog.rs
+++ b/src/nodes/node_prog.rs
@@ -70,7 +70,7 @@ impl ModOp {
 #[derive(Debug, Clone)]
 pub struct NodeOp {
     /// Stores the index of the node
-    pub idx: u8,
+    pub idx: usize,
     /// Stores the reference to the node.
     pub node: Node,
     /// Output index and length of the node:
-- 
2.43.0


From e6979ea3a421a61665fabd62226eeee1118a6cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 45/56] fix: clear the LED and phase values when the graph is
 cleared

---
 src/nodes/node_exec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index e649a3d..db3c8f9 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -218,6 +218,11 @@ impl NodeExecutor {
                     self.exec_ctx.clear();
                     self.stop_smoothers();
 
+                    // The next nodes must not show the values of the current ones:
+                    for ctx_val in self.shared.node_ctx_values.iter() {
+                        ctx_val.set(0.0);
+                    }
+
                     self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];
 
                     log(|w| {
-- 
2.43.0


From ac48ae76e27b1231553fc2866c79a62bb796830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 46/56] fix: keep the feedback delay independent of order,
 creation time and sample rate

---
 src/dsp/node_fbwr_fbrd.rs | 12 ++++--
 src/nodes/node_exec.rs    |  6 ++-
 src/shared_feedback.rs    | 84 +++++++++++++++++++++++++++++++--------
 3 files changed, 81 insertions(+), 21 deletions(-)

diff --git a/src/dsp/node_fbwr_fbrd.rs b/src/dsp/node_fbwr_fbrd.rs
index 00733b7..2e80ab8 100644
--- a/src/dsp/node_fbwr_fbrd.rs
+++ b/src/dsp/node_fbwr_fbrd.rs
@@ -55,14 +55,16 @@ is running at.
 }
 
 impl DspNode for FbWr {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.fb_wr.set_sample_rate(srate);
+    }
     fn reset(&mut self) {}
 
     #[inline]
     fn process(
         &mut self,
         ctx: &mut dyn NodeAudioContext,
-        _ectx: &mut NodeExecContext,
+        ectx: &mut NodeExecContext,
         _nctx: &NodeContext,
         _atoms: &[SAtom],
         inputs: &[ProcBuf],
@@ -73,6 +75,8 @@ impl DspNode for FbWr {
 
         let inp = inp::FbWr::inp(inputs);
 
+        self.fb_wr.seek(ectx.frame_time);
+
         for frame in 0..ctx.nframes() {
             self.fb_wr.write(inp.read(frame));
         }
@@ -140,7 +144,7 @@ impl DspNode for FbRd {
     fn process(
         &mut self,
         ctx: &mut dyn NodeAudioContext,
-        _ectx: &mut NodeExecContext,
+        ectx: &mut NodeExecContext,
         _nctx: &NodeContext,
         _atoms: &[SAtom],
         inputs: &[ProcBuf],
@@ -152,6 +156,8 @@ impl DspNode for FbRd {
         let vol = inp::FbRd::vol(inputs);
         let sig = out::FbRd::sig(outputs);
 
+        self.fb_rd.seek(ectx.frame_time);
+
         let mut last_val = 0.0;
         for frame in 0..ctx.nframes() {
             last_val = self.fb_rd.read();
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index db3c8f9..2e6ba1c 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -171,13 +171,15 @@ pub struct NodeExecContext {
     /// Handle to the external parameters, external meaning parameters that come in via eg. the
     /// plugin API or are provided elsewhere on the audio thread.
     pub ext_param: Option<Arc<dyn ExternalParams>>,
+    /// The number of frames that were processed before the current block.
+    pub frame_time: u64,
 }
 
 impl NodeExecContext {
     fn new() -> Self {
         let midi_notes = Vec::with_capacity(MAX_MIDI_NOTES_PER_BLOCK);
         let midi_ccs = Vec::with_capacity(MAX_MIDI_CC_PER_BLOCK);
-        Self { midi_notes, midi_ccs, ext_param: None }
+        Self { midi_notes, midi_ccs, ext_param: None, frame_time: 0 }
     }
 
     fn set_sample_rate(&mut self, _srate: f32) {}
@@ -530,6 +532,8 @@ impl NodeExecutor {
 
         prog.out_feedback.publish();
 
+        exec_ctx.frame_time += nframes as u64;
+
         self.shared.monitor_backend.check_recycle();
 
         // let ta = std::time::Instant::now();
diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index 4ee55d8..ad475f0 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -8,11 +8,22 @@
 //! See also [crate::NodeGlobalData] which provides the [SharedFeedback] to the nodes.
 
 use crate::dsp::MAX_BLOCK_SIZE;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use synfx_dsp::AtomicFloat;
 
 pub const FB_DELAY_LENGTH_MS: f32 = 3.14;
 
+/// The highest sample rate for which the buffer has enough space for [FB_DELAY_LENGTH_MS].
+const FB_MAX_SAMPLE_RATE: f32 = 384000.0;
+
+fn delay_sample_count(sample_rate: f32) -> usize {
+    let delay_sample_count = ((sample_rate * FB_DELAY_LENGTH_MS) / 1000.0) as usize;
+
+    // Ensure we got at least MAX_BLOCK_SIZE though!
+    delay_sample_count.max(MAX_BLOCK_SIZE)
+}
+
 /// The SharedFeedback is a feedback delay buffer for the `FbWr` and `FbRd` nodes.
 ///
 /// They have a fixed delay of 3.14ms, which should be equal for all sample rates above 42kHz.
@@ -22,23 +33,26 @@ pub const FB_DELAY_LENGTH_MS: f32 = 3.14;
 #[derive(Debug, Clone)]
 pub struct SharedFeedback {
     buffer: Arc<Vec<AtomicFloat>>,
+    /// The point in time (in frames) for which there is nothing written in the buffer anymore.
+    written_until: Arc<AtomicU64>,
     delay_sample_count: usize,
 }
 
 impl SharedFeedback {
     pub fn new(sample_rate: f32) -> Self {
         let mut buf = vec![];
-        let delay_sample_count = ((sample_rate * FB_DELAY_LENGTH_MS) / 1000.0) as usize;
-
-        // Ensure we got at least MAX_BLOCK_SIZE though!
-        let delay_sample_count = delay_sample_count.max(MAX_BLOCK_SIZE);
 
         // Multiply by 3, to make ample space for the FB_DELAY_LENGTH_MS,
         // probably 2*delay_sample_count would be fine too,
         // but I'm anxious about off by one bugs :-)
-        buf.resize_with(3 * delay_sample_count, || AtomicFloat::new(0.0));
+        let max_delay_sample_count = delay_sample_count(sample_rate.max(FB_MAX_SAMPLE_RATE));
+        buf.resize_with(3 * max_delay_sample_count, || AtomicFloat::new(0.0));
 
-        Self { buffer: Arc::new(buf), delay_sample_count }
+        Self {
+            buffer: Arc::new(buf),
+            written_until: Arc::new(AtomicU64::new(0)),
+            delay_sample_count: delay_sample_count(sample_rate),
+        }
     }
 }
 
@@ -51,17 +65,37 @@ impl SharedFeedback {
 #[derive(Debug, Clone)]
 pub struct SharedFeedbackWriter {
     buffer: Arc<Vec<AtomicFloat>>,
-    write_ptr: usize,
+    written_until: Arc<AtomicU64>,
+    write_time: u64,
     delay_sample_count: usize,
 }
 
 impl SharedFeedbackWriter {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        let buffer = sfb.buffer.clone();
         Self {
-            buffer,
+            buffer: sfb.buffer.clone(),
+            written_until: sfb.written_until.clone(),
             delay_sample_count: sfb.delay_sample_count,
-            write_ptr: sfb.delay_sample_count,
+            write_time: sfb.delay_sample_count as u64,
+        }
+    }
+
+    /// Adjusts the number of samples of the delay to the sample rate.
+    pub fn set_sample_rate(&mut self, sample_rate: f32) {
+        self.delay_sample_count = delay_sample_count(sample_rate).min(self.buffer.len() / 3);
+    }
+
+    /// Sets the point in time (in frames) of the next sample that is written. Use this at the
+    /// beginning of each block, to keep the distance to the [SharedFeedbackReader] regardless
+    /// of when the writer and the reader were created or in which order they are executed.
+    pub fn seek(&mut self, time: u64) {
+        self.write_time = time + self.delay_sample_count as u64;
+
+        // Nothing was written if the writer was not executed for some time:
+        let len = self.buffer.len() as u64;
+        let unwritten = self.written_until.load(Ordering::Relaxed);
+        for time in unwritten.max(self.write_time.saturating_sub(len))..self.write_time {
+            self.buffer[(time % len) as usize].set(0.0);
         }
     }
 
@@ -72,8 +106,10 @@ impl SharedFeedbackWriter {
     /// on the audio thread writing the buffer per buffer iteration. And then one or more
     /// `FbRd` DSP node reading from that buffer.
     pub fn write(&mut self, s: f32) {
-        self.buffer[self.write_ptr].set(s);
-        self.write_ptr = (self.write_ptr + 1) % self.delay_sample_count;
+        let len = self.buffer.len() as u64;
+        self.buffer[(self.write_time % len) as usize].set(s);
+        self.write_time += 1;
+        self.written_until.store(self.write_time, Ordering::Relaxed);
     }
 }
 
@@ -87,21 +123,35 @@ impl SharedFeedbackWriter {
 #[derive(Debug, Clone)]
 pub struct SharedFeedbackReader {
     buffer: Arc<Vec<AtomicFloat>>,
-    read_ptr: usize,
-    delay_sample_count: usize,
+    written_until: Arc<AtomicU64>,
+    read_time: u64,
 }
 
 impl SharedFeedbackReader {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        Self { buffer: sfb.buffer.clone(), delay_sample_count: sfb.delay_sample_count, read_ptr: 0 }
+        Self {
+            buffer: sfb.buffer.clone(),
+            written_until: sfb.written_until.clone(),
+            read_time: 0,
+        }
+    }
+
+    /// Sets the point in time (in frames) of the next sample that is read, see also
+    /// [SharedFeedbackWriter::seek].
+    pub fn seek(&mut self, time: u64) {
+        self.read_time = time;
     }
 
     /// Read the next sample from the buffer. Wraps around after some internal buffer
     /// size (that is consistent with the [SharedFeedback] buffer size). Used by `FbRd` DSP node
     /// to do it's functionality.
     pub fn read(&mut self) -> f32 {
-        let ret = self.buffer[self.read_ptr].get();
-        self.read_ptr = (self.read_ptr + 1) % self.delay_sample_count;
+        let ret = if self.read_time < self.written_until.load(Ordering::Relaxed) {
+            self.buffer[(self.read_time % self.buffer.len() as u64) as usize].get()
+        } else {
+            0.0
+        };
+        self.read_time += 1;
         ret
     }
 }
-- 
2.43.0


From 2b592720e6916f02751053993c75ac5192713421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:10 +0000
Subject: [PATCH 47/56] fix: refuse cyclic constructor graphs without
 overflowing the stack or blocking later uploads

---
 src/synth_constructor.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index f2770a2..c47e716 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -39,7 +39,8 @@ See also [SynthConstructor::new] and [crate::build].
 use crate::build::*;
 use crate::nodes::{new_node_engine, NodeGraphOrdering};
 use crate::{NodeConfigurator, NodeExecutor, NodeId, SAtom};
-use std::collections::HashMap;
+use std::cell::RefCell;
+use std::collections::{HashMap, HashSet};
 
 /// Returned by [SynthConstructor] if some error occured while updating the graph
 /// or changing paramters.
@@ -119,9 +120,16 @@ impl SynthConstructor {
         &mut self,
         node: &ConstructorNode,
         only_update_params: bool,
+        visited: &mut HashSet<*const RefCell<Vec<ConstructorOp>>>,
     ) -> Result<bool, SynthError> {
         let mut need_rebuild = false;
 
+        // The description of a node might be used multiple times or
+        // even (indirectly) as input of the node itself:
+        if !visited.insert(std::rc::Rc::as_ptr(&node.ops)) {
+            return Ok(false);
+        }
+
         let node_id = node.node_id;
 
         if !self.nodes.contains_key(&node_id) {
@@ -174,7 +182,7 @@ impl SynthConstructor {
         }
 
         for node in walk_afterwads.iter() {
-            if self.walk_upload(&node, only_update_params)? {
+            if self.walk_upload(&node, only_update_params, visited)? {
                 need_rebuild = true;
             }
         }
@@ -240,7 +248,7 @@ impl SynthConstructor {
     pub fn update_params(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<bool, SynthError> {
         let built_node = node.build();
 
-        if self.walk_upload(&built_node, true)? {
+        if self.walk_upload(&built_node, true, &mut HashSet::new())? {
             self.upload(node)?;
             Ok(true)
         } else {
@@ -298,7 +306,18 @@ impl SynthConstructor {
 
     pub fn upload(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<(), SynthError> {
         let node = node.build();
-        self.walk_upload(&node, false)?;
+
+        // A refused graph must not have an effect on the next uploads:
+        let prev_nodes = self.nodes.clone();
+        let result = self.try_upload(&node);
+        if result.is_err() {
+            self.nodes = prev_nodes;
+        }
+        result
+    }
+
+    fn try_upload(&mut self, node: &ConstructorNode) -> Result<(), SynthError> {
+        self.walk_upload(node, false, &mut HashSet::new())?;
 
         self.graph_ordering.clear();
 
-- 
2.43.0


From 5c87333f75720a79c444c27e4b0379a21a76f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:10 +0000
Subject: [PATCH 48/56] fix: give the parameters of a chain to the nodes placed
 and don't reuse nodes in use

---
 src/chain_builder.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 959618b..b59984c 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -109,6 +109,11 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_denorm(&mut self, param: &str, denorm: f32) -> &mut Self {
+        // The error is going to be returned by [MatrixCellChain::place]:
+        if self.error.is_some() {
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
@@ -126,6 +131,11 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_norm(&mut self, param: &str, norm: f32) -> &mut Self {
+        // The error is going to be returned by [MatrixCellChain::place]:
+        if self.error.is_some() {
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
@@ -143,6 +153,11 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_atom(&mut self, param: &str, at: SAtom) -> &mut Self {
+        // The error is going to be returned by [MatrixCellChain::place]:
+        if self.error.is_some() {
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
@@ -248,6 +263,7 @@ impl MatrixCellChain {
         }
 
         let mut last_unused = HashMap::new();
+        let mut placed_node_ids = vec![];
 
         let mut pos = (at_x, at_y);
 
@@ -260,26 +276,28 @@ impl MatrixCellChain {
             let node_name = node_id.name();
 
             let node_id = if let Some(i) = last_unused.get(node_name).cloned() {
-                last_unused.insert(node_name.to_string(), i + 1);
-                node_id.to_instance(i + 1)
+                matrix.get_unused_instance_node_id(node_id.to_instance(i + 1))
             } else {
-                let node_id = matrix.get_unused_instance_node_id(node_id);
-                last_unused.insert(node_name.to_string(), node_id.instance());
-                node_id
+                matrix.get_unused_instance_node_id(node_id)
             };
+            last_unused.insert(node_name.to_string(), node_id.instance());
 
             cell.set_node_id_keep_ios(node_id);
 
             matrix.place(x, y, cell);
+            placed_node_ids.push(node_id);
 
             let offs = link.dir.as_offs(pos.0);
             pos.0 = (pos.0 as i32 + offs.0) as usize;
             pos.1 = (pos.1 as i32 + offs.1) as usize;
         }
 
-        for link in self.chain.iter() {
+        for (link, node_id) in self.chain.iter().zip(placed_node_ids.iter()) {
             for (pid, at) in link.params.iter() {
-                matrix.set_param(*pid, at.clone());
+                // The parameters belong to the node instance that was actually placed:
+                if let Some(pid) = node_id.inp_param(pid.name()) {
+                    matrix.set_param(pid, at.clone());
+                }
             }
         }
 
-- 
2.43.0


From 247436d31562d9b379befe98841adc3a71be0ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:23 +0000
Subject: [PATCH 49/56] fix: Map: values below the input range minimum are
 mapped linearly, not folded back up

---
 src/dsp/node_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_map.rs b/src/dsp/node_map.rs
index 55db70a..658a583 100644
--- a/src/dsp/node_map.rs
+++ b/src/dsp/node_map.rs
@@ -120,7 +120,7 @@ impl DspNode for Map {
                 let x = if (imax - imin).abs() < std::f32::EPSILON {
                     1.0
                 } else {
-                    ((s - imin) / (imax - imin)).abs()
+                    (s - imin) / (imax - imin)
                 };
                 last_val = x;
                 let s = min + (max - min) * x;
@@ -139,7 +139,7 @@ impl DspNode for Map {
                 let x = if (imax - imin).abs() < std::f32::EPSILON {
                     1.0
                 } else {
-                    ((s - imin) / (imax - imin)).abs()
+                    (s - imin) / (imax - imin)
                 };
                 last_val = x;
                 let s = min + (max - min) * x;
-- 
2.43.0


From 8c599134e0d118547921ef0ea16951fad63d18a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:23 +0000
Subject: [PATCH 50/56] fix: Rust1x1: forward the sample rate and the reset to
 the dynamic node

---
 src/dsp/node_rust.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/dsp/node_rust.rs b/src/dsp/node_rust.rs
index c7db024..c35f7bf 100644
--- a/src/dsp/node_rust.rs
+++ b/src/dsp/node_rust.rs
@@ -115,11 +115,23 @@ impl<T> DynNodeBuffer<T>
 where
     T: Send,
 {
+    /// Fetches the most recently written value, returns true if there was a new one.
     #[inline]
-    pub fn access(&mut self) -> &mut T {
-        self.output.update();
+    pub fn update(&mut self) -> bool {
+        self.output.update()
+    }
+
+    /// Access the current value, without checking for a new one.
+    #[inline]
+    pub fn current(&mut self) -> &mut T {
         self.output.output_buffer()
     }
+
+    #[inline]
+    pub fn access(&mut self) -> &mut T {
+        self.update();
+        self.current()
+    }
 }
 
 pub struct DynNodeHandle<T: Send + Default> {
@@ -167,6 +179,7 @@ impl std::fmt::Debug for Rust1x1 {
 /// A native Rust code node that uses trait objects for dispatch
 pub struct Rust1x1 {
     buffer: DynNodeBuffer<Box<dyn DynamicNode1x1>>,
+    srate: f32,
 }
 
 impl Rust1x1 {
@@ -177,7 +190,7 @@ impl Rust1x1 {
             let mut handle = DynNodeHandle::<Box<dyn DynamicNode1x1>>::new();
             handle.get_output_buffer()
         };
-        Self { buffer }
+        Self { buffer, srate: 44100.0 }
     }
 
     pub const inp: &'static str =
@@ -213,9 +226,14 @@ See also [crate::SynthConstructor] and [crate::DynamicNode1x1].
 }
 
 impl DspNode for Rust1x1 {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.srate = srate;
+        self.buffer.current().set_sample_rate(srate);
+    }
 
-    fn reset(&mut self) {}
+    fn reset(&mut self) {
+        self.buffer.current().reset();
+    }
 
     #[inline]
     fn process(
@@ -243,7 +261,12 @@ impl DspNode for Rust1x1 {
             phase_value: ctx_vals[1].clone(),
         };
 
-        self.buffer.access().process(
+        if self.buffer.update() {
+            // The new node does not know the sample rate yet:
+            self.buffer.current().set_sample_rate(self.srate);
+        }
+
+        self.buffer.current().process(
             inp.slice(ctx.nframes()),
             out.slice_mut(ctx.nframes()),
             &n1x1ctx,
-- 
2.43.0


From 0534e1ef46d97df66534a92e5f264c6456e5e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:23 +0000
Subject: [PATCH 51/56] fix: Scope: the minimum and maximum of the first entry
 do not include 0.0

---
 src/dsp/node_scope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_scope.rs b/src/dsp/node_scope.rs
index ef4b738..a4bfc38 100644
--- a/src/dsp/node_scope.rs
+++ b/src/dsp/node_scope.rs
@@ -54,7 +54,7 @@ impl Scope {
             idx: 0,
             srate_ms: 44.1,
             frame_time: 0.0,
-            cur_mm: Box::new([(0.0, 0.0); 3]),
+            cur_mm: Box::new([(-99999.0, 99999.0); 3]),
             trig: CustomTrigger::new(0.0, 0.0001),
         }
     }
-- 
2.43.0


From ea4ccd726f378df38b434382fd4df08aa8b3b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:23 +0000
Subject: [PATCH 52/56] fix: Matrix: report a changed modulation amount to the
 observer also when no rebuild is needed

---
 src/matrix.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index e31dd9b..6d8d7de 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1086,6 +1086,12 @@ impl Matrix {
             self.observer = obs;
             ret
         } else {
+            if !param.is_atom() {
+                if let Some(obs) = &self.observer {
+                    obs.update_param(&param);
+                }
+            }
+
             self.gen_counter += 1;
             Ok(())
         }
-- 
2.43.0


From 9304429aeb11d537a4c2002ff97734e0cd4ef08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:35 +0000
Subject: [PATCH 53/56] fix: nodes that join the running graph later get the
 current sample rate

---
 src/dsp/mod.rs         | 22 +++++++++++++++++++---
 src/nodes/node_exec.rs |  8 ++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 0bb66d8..fdcc120 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -2701,7 +2701,7 @@ node_list! {make_node_info_enum}
 /// 4. Upon update of the [crate::nodes::NodeProg] on the DSP thread it is disposed
 /// by being sent to the drop thread.
 #[derive(Clone)]
-pub struct Node(pub Arc<SyncUnsafeCell<dyn DspNode>>, NodeId);
+pub struct Node(pub Arc<SyncUnsafeCell<dyn DspNode>>, NodeId, Arc<AtomicFloat>);
 
 impl Node {
     pub fn id(&self) -> NodeId {
@@ -2710,11 +2710,19 @@ impl Node {
 
     #[inline]
     pub fn set_sample_rate(&self, srate: f32) {
+        self.2.set(srate);
+
         unsafe {
             (*self.0.get()).set_sample_rate(srate);
         }
     }
 
+    /// Returns the sample rate that was last set for this node.
+    #[inline]
+    pub fn sample_rate(&self) -> f32 {
+        self.2.get()
+    }
+
     #[inline]
     pub fn reset(&self) {
         unsafe {
@@ -2748,7 +2756,11 @@ pub struct NopNode();
 
 impl NopNode {
     pub fn new_node() -> Node {
-        Node(Arc::new(SyncUnsafeCell::new(Self {})), NodeId::Nop)
+        Node(
+            Arc::new(SyncUnsafeCell::new(Self {})),
+            NodeId::Nop,
+            Arc::new(AtomicFloat::new(0.0)),
+        )
     }
 }
 
@@ -2785,7 +2797,11 @@ pub fn node_factory(node_id: NodeId, node_global: &NodeGlobalRef) -> Option<(Nod
         ) => {
             match node_id {
                 $(NodeId::$variant(_) => Some((
-                    Node(Arc::new(SyncUnsafeCell::new($variant::new(&node_id, node_global))), node_id),
+                    Node(
+                        Arc::new(SyncUnsafeCell::new($variant::new(&node_id, node_global))),
+                        node_id,
+                        Arc::new(AtomicFloat::new(0.0)),
+                    ),
                     NodeInfo::from_node_id(node_id),
                 )),)+
                 _ => None,
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 2e6ba1c..bf94452 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -303,6 +303,14 @@ impl NodeExecutor {
 
                     self.prog.assign_outputs();
 
+                    // The sample rate could have been changed while a node was not
+                    // part of the running program:
+                    for op in self.prog.prog.iter() {
+                        if op.node.sample_rate() != self.sample_rate {
+                            op.node.set_sample_rate(self.sample_rate);
+                        }
+                    }
+
                     let _ = self.shared.graph_drop_prod.push(DropMsg::Prog { prog: prev_prog });
 
                     log(|w| {
-- 
2.43.0


From f7e8f0c67354f94f29ffbfc2f24e7041a8aa182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:07 +0000
Subject: [PATCH 54/56] fix: save the modulation amounts of parameters that
 have no value set

---
 src/nodes/node_conf.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index 3f498da..718c95a 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -529,6 +529,17 @@ impl NodeConfigurator {
                     self.param_modamt.get(param_id).copied().flatten(),
                 )
             })
+            // Modulation amounts of parameters, that have no value yet:
+            .chain(
+                self.param_modamt
+                    .iter()
+                    .filter(|(param_id, modamt)| {
+                        modamt.is_some() && !self.param_values.contains_key(param_id)
+                    })
+                    .map(|(param_id, modamt)| {
+                        (*param_id, param_id.denorm(param_id.norm_def()), *modamt)
+                    }),
+            )
             .collect();
 
         let atoms: Vec<(ParamId, SAtom)> =
-- 
2.43.0


From fc33169fa22c09713d95c1c90779eaffd14cbbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:01 +0000
Subject: [PATCH 55/56] fix: load 8, 24 and 32 bit WAV files with the proper
 scaling

---
 src/sample_lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sample_lib.rs b/src/sample_lib.rs
index 92c10e1..17cf871 100644
--- a/src/sample_lib.rs
+++ b/src/sample_lib.rs
@@ -62,10 +62,9 @@ impl SampleLibrary {
             }
             // http://blog.bjornroche.com/2009/12/int-float-int-its-jungle-out-there.html
             hound::SampleFormat::Int => {
-                for s in rd.samples::<i16>().step_by(channels).take(max_sample_count) {
-                    let s = s?;
-                    let s = s as f32 / (0x8000 as f32);
-                    v.push(s);
+                let full_scale = 2.0_f32.powi(rd.spec().bits_per_sample as i32 - 1);
+                for s in rd.samples::<i32>().step_by(channels).take(max_sample_count) {
+                    v.push(s? as f32 / full_scale);
                 }
             }
         };
-- 
2.43.0


From 085fa05bfe781cd35d192cb06cb530186008785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:42 +0000
Subject: [PATCH 56/56] fix: one-shot sample playback ends exactly with the
 slice

---
 src/dsp/node_sampl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 5d7dbd1..1e1122d 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -263,7 +263,9 @@ impl Sampl {
                 self.last_sample = s;
                 out.write(frame, s);
 
-                if !do_loop && prev_phase > self.phase {
+                if !do_loop
+                    && (prev_phase > self.phase || self.phase >= sample_slice.len() as f64)
+                {
                     // played past end => stop playing.
                     is_playing = false;
                 }
-- 
2.43.0

