From 1dc268683d91f78c10d3cfe048d04355ecf2e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:48 +0000
Subject: [PATCH 01/44] fix: sequencer fades in block processing follow events
 that start mid-block

An event that starts inside a block is rendered to the start of the
intermediate buffer, but its fades were applied at offsets counted from the
start of the block, so block output differed from tick output.
---
 src/sequencer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index a750b63..d4a3e73 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -139,6 +139,8 @@ fn fade_in(
             time + start_index as f64 * sample_duration,
         ) as f32;
         let fade_d = (sample_duration / fade_duration) as f32;
+        // The event was rendered from the start of the buffer.
+        let fade_end_i = min(fade_end_i, end_index).saturating_sub(start_index);
         match ease {
             Fade::Power => {
                 for channel in 0..output.channels() {
@@ -167,7 +169,7 @@ fn fade_out(
     sample_duration: f64,
     time: f64,
     end_time: f64,
-    _start_index: usize,
+    start_index: usize,
     end_index: usize,
     ease: Fade,
     fade_duration: f64,
@@ -181,17 +183,21 @@ fn fade_out(
         } else {
             round((fade_start_time - time) / sample_duration) as usize
         };
+        let fade_i = max(fade_i, start_index);
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
             time + fade_i as f64 * sample_duration,
         ) as f32;
         let fade_d = (sample_duration / fade_duration) as f32;
+        // The event was rendered from the start of the buffer.
+        let end_i = end_index - start_index;
+        let fade_i = min(fade_i - start_index, end_i);
         match ease {
             Fade::Power => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in output.channel_f32_mut(channel)[fade_i..end_i].iter_mut() {
                         *x *= sine_ease(1.0 - fade);
                         fade += fade_d;
                     }
@@ -200,7 +206,7 @@ fn fade_out(
             Fade::Smooth => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in output.channel_f32_mut(channel)[fade_i..end_i].iter_mut() {
                         *x *= smooth5(1.0 - fade);
                         fade += fade_d;
                     }
-- 
2.43.0


From a873068339ed9d865bcc34adecd092ec1a8f3742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:57 +0000
Subject: [PATCH 02/44] fix: sequencer backend applies messages sent after a
 reset after the reset

The backend's handling of a reset message drained the rest of the message
queue before resetting, so events pushed after the reset were lost (or, with
replay, scheduled against the old time base).
---
 src/realseq.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/realseq.rs b/src/realseq.rs
index 9e3089d..d6a286f 100644
--- a/src/realseq.rs
+++ b/src/realseq.rs
@@ -63,7 +63,7 @@ impl SequencerBackend {
         while let Ok(message) = self.receiver.try_recv() {
             match message {
                 Message::Reset => {
-                    self.reset();
+                    self.reset_sequencer();
                 }
                 Message::Push(event) => {
                     self.sequencer.push_event(event);
@@ -82,6 +82,22 @@ impl SequencerBackend {
         }
     }
 
+    /// Reset the sequencer without looking at further messages.
+    fn reset_sequencer(&mut self) {
+        if !self.sequencer.replay_events() {
+            while let Some(event) = self.sequencer.get_past_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_ready_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+            while let Some(event) = self.sequencer.get_active_event() {
+                if self.sender.try_send(Some(event)).is_ok() {}
+            }
+        }
+        self.sequencer.reset();
+    }
+
     #[inline]
     fn send_back_past(&mut self) {
         while let Some(event) = self.sequencer.get_past_event() {
@@ -101,18 +117,7 @@ impl AudioUnit for SequencerBackend {
 
     fn reset(&mut self) {
         self.handle_messages();
-        if !self.sequencer.replay_events() {
-            while let Some(event) = self.sequencer.get_past_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_ready_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-            while let Some(event) = self.sequencer.get_active_event() {
-                if self.sender.try_send(Some(event)).is_ok() {}
-            }
-        }
-        self.sequencer.reset();
+        self.reset_sequencer();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-- 
2.43.0


From 57bb31c60a315df77e42b01ff77f3a277520f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:56 +0000
Subject: [PATCH 03/44] fix: DummyUnit zeroes its whole output block

---
 src/audiounit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audiounit.rs b/src/audiounit.rs
index 43c5fe0..3177c04 100644
--- a/src/audiounit.rs
+++ b/src/audiounit.rs
@@ -675,7 +675,7 @@ impl AudioUnit for DummyUnit {
 
     fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
         for channel in 0..self.outputs {
-            output.channel_f32_mut(channel)[0..simd_items(size)].fill(0.0);
+            output.channel_f32_mut(channel)[0..size].fill(0.0);
         }
     }
 
-- 
2.43.0


From 31c7a1292bbabf39dce44bd5057ae58721e7ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:56 +0000
Subject: [PATCH 04/44] fix: network backend applies commits and settings one
 by one in order, and before a reset

---
 src/net.rs     | 13 -------------
 src/realnet.rs | 46 ++++++++++++++++------------------------------
 2 files changed, 16 insertions(+), 43 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 5fe667c..877f110 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1288,19 +1288,6 @@ impl Net {
         }
         self.edit_queue.clear();
     }
-
-    /// Apply all edits from another network into this network.
-    pub(crate) fn apply_foreign_edits(
-        &mut self,
-        source: &mut Net,
-        sender: &Option<Sender<NetReturn>>,
-    ) {
-        for edit in source.edit_queue.iter_mut() {
-            if let Some(index) = self.node_index.get(&edit.id) {
-                self.vertex[*index].enqueue(edit, sender);
-            }
-        }
-    }
 }
 
 impl AudioUnit for Net {
diff --git a/src/realnet.rs b/src/realnet.rs
index df663de..aca88a4 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -61,25 +61,25 @@ impl NetBackend {
 
     /// Handle changes made to the backend.
     fn handle_messages(&mut self) {
-        let mut latest_net: Option<Net> = None;
+        // Messages take effect one by one in the order they were sent.
         #[allow(clippy::while_let_loop)]
         loop {
             match self.receiver.try_recv() {
                 Ok(message) => {
                     match message {
-                        NetMessage::Net(net) => {
-                            if let Some(mut net) = latest_net {
-                                // This is not the latest network, send it back immediately for deallocation.
-                                self.net.apply_foreign_edits(&mut net, &self.sender);
-                                if self
-                                    .sender
-                                    .as_ref()
-                                    .unwrap()
-                                    .try_send(NetReturn::Net(net))
-                                    .is_ok()
-                                {}
-                            }
-                            latest_net = Some(net);
+                        NetMessage::Net(mut net) => {
+                            // Migrate existing nodes to the new network.
+                            self.net.migrate(&mut net);
+                            core::mem::swap(&mut net, &mut self.net);
+                            self.net.apply_edits(&self.sender);
+                            // Send the previous network back for deallocation.
+                            if self
+                                .sender
+                                .as_ref()
+                                .unwrap()
+                                .try_send(NetReturn::Net(net))
+                                .is_ok()
+                            {}
                         }
                         NetMessage::Setting(setting) => {
                             self.net.set(setting);
@@ -90,20 +90,6 @@ impl NetBackend {
                 _ => break,
             }
         }
-        if let Some(mut net) = latest_net {
-            // Migrate existing nodes to the new network.
-            self.net.migrate(&mut net);
-            core::mem::swap(&mut net, &mut self.net);
-            self.net.apply_edits(&self.sender);
-            // Send the previous network back for deallocation.
-            if self
-                .sender
-                .as_ref()
-                .unwrap()
-                .try_send(NetReturn::Net(net))
-                .is_ok()
-            {}
-        }
     }
 }
 
@@ -117,13 +103,13 @@ impl AudioUnit for NetBackend {
     }
 
     fn reset(&mut self) {
-        self.net.reset();
         self.handle_messages();
+        self.net.reset();
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
-        self.net.set_sample_rate(sample_rate);
         self.handle_messages();
+        self.net.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &[f32], output: &mut [f32]) {
-- 
2.43.0


From aa183c17112c138e84f76e5d72582c6e1f6e67a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:56 +0000
Subject: [PATCH 05/44] fix: removing a node of a cycle with linking does not
 create self connections

---
 src/net.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/net.rs b/src/net.rs
index 877f110..473161d 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -399,11 +399,16 @@ impl Net {
             for channel in 0..self.vertex[vertex].inputs() {
                 if let Port::Local(index, port) = self.vertex[vertex].source[channel].source {
                     if index == node_index {
-                        self.vertex[vertex].source[channel].source = if link {
+                        let source = if link {
                             self.vertex[node_index].source[port].source
                         } else {
                             Port::Zero
                         };
+                        // Self connections are prohibited.
+                        self.vertex[vertex].source[channel].source = match source {
+                            Port::Local(i, _) if i == vertex => Port::Zero,
+                            source => source,
+                        };
                     }
                 }
             }
-- 
2.43.0


From 2bb208908eed60fe0b18ba4d89aa1e6d39bf68a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:56 +0000
Subject: [PATCH 06/44] fix: frontend keeps crossfaded units so later resets do
 not revert them

---
 src/net.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 473161d..fcab42a 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1151,6 +1151,12 @@ impl Net {
         // Send over the original nodes to the backend.
         // This is necessary if the nodes contain any backends, which cannot be cloned effectively.
         core::mem::swap(&mut net.vertex, &mut self.vertex);
+        // Keep the frontend up to date with units that are faded in.
+        for edit in net.edit_queue.iter() {
+            if let Some(unit) = &edit.unit {
+                self.vertex[edit.index].unit = unit.clone();
+            }
+        }
         // Preallocate all necessary memory.
         net.allocate();
         if let Some((sender, receiver)) = &mut self.front {
-- 
2.43.0


From 5d3cbb6216733baa71a296e132804999e7cc9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:56 +0000
Subject: [PATCH 07/44] fix: settings sent to a frontend also reach its own
 nodes, including uncommitted ones

---
 src/net.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index fcab42a..ebd9990 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1354,8 +1354,12 @@ impl AudioUnit for Net {
 
     fn set(&mut self, setting: Setting) {
         if let Some((sender, _receiver)) = &mut self.front {
-            if sender.try_send(NetMessage::Setting(setting)).is_ok() {}
-        } else if let Address::Node(id) = setting.direction() {
+            if sender
+                .try_send(NetMessage::Setting(setting.clone()))
+                .is_ok()
+            {}
+        }
+        if let Address::Node(id) = setting.direction() {
             if let Some(index) = self.node_index.get(&id) {
                 self.vertex[*index].unit.set(setting.peel());
             }
-- 
2.43.0


From 4780662585fc00ca0eb1c8ee581d0869e248d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:56 +0000
Subject: [PATCH 08/44] fix: replacing a node supersedes its earlier crossfades

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index ebd9990..a04383e 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -470,6 +470,10 @@ impl Net {
         assert_eq!(unit.outputs(), self.vertex[node_index].outputs());
         unit.set_sample_rate(self.sample_rate as f64);
         core::mem::swap(&mut self.vertex[node_index].unit, &mut unit);
+        // The replacement supersedes any crossfades to earlier units.
+        self.vertex[node_index].next.unit = None;
+        self.vertex[node_index].latest.unit = None;
+        self.edit_queue.retain(|edit| edit.id != node);
         self.vertex[node_index].changed = self.revision;
         unit
     }
-- 
2.43.0


From 839b295779371f3bfb0320c0df4915304546dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:56 +0000
Subject: [PATCH 09/44] fix: network sample rate changes and resets reach units
 that are being faded in

---
 src/net.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index a04383e..867565e 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1320,12 +1320,22 @@ impl AudioUnit for Net {
             self.sample_rate = sample_rate;
             for vertex in &mut self.vertex {
                 vertex.unit.set_sample_rate(sample_rate as f64);
+                for edit in [&mut vertex.next, &mut vertex.latest] {
+                    if let Some(unit) = edit.unit.as_deref_mut() {
+                        unit.set_sample_rate(sample_rate as f64);
+                    }
+                }
                 // Sample rate change counts as a change
                 // to be sent to the backend because
                 // we cannot change sample rate in the backend
                 // - it may allocate or do something else inappropriate.
                 vertex.changed = self.revision;
             }
+            for edit in self.edit_queue.iter_mut() {
+                if let Some(unit) = edit.unit.as_deref_mut() {
+                    unit.set_sample_rate(sample_rate as f64);
+                }
+            }
             // Take the opportunity to unload some calculations.
             if !self.is_ordered() {
                 self.determine_order();
@@ -1336,6 +1346,11 @@ impl AudioUnit for Net {
     fn reset(&mut self) {
         for vertex in &mut self.vertex {
             vertex.unit.reset();
+            for edit in [&mut vertex.next, &mut vertex.latest] {
+                if let Some(unit) = edit.unit.as_deref_mut() {
+                    unit.reset();
+                }
+            }
             // Reseting a unit counts as a change
             // to be sent to the backend because
             // we cannot reset in the backend
-- 
2.43.0


From 3b44466371ef17db1a2960db4c3768aa70e0ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:57 +0000
Subject: [PATCH 10/44] fix: combining networks brings all units to the sample
 rate of the result

---
 src/net.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/net.rs b/src/net.rs
index 867565e..9890595 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1184,12 +1184,30 @@ impl Net {
         if self.has_backend() && other.has_backend() {
             panic!("Cannot combine two frontends.");
         }
-        if other.has_backend() {
+        let sample_rate_differs = self.sample_rate != other.sample_rate;
+        let other_leads = other.has_backend();
+        if other_leads {
             core::mem::swap(&mut self.front, &mut other.front);
             core::mem::swap(&mut self.edit_queue, &mut other.edit_queue);
             self.backend_inputs = other.backend_inputs;
             self.backend_outputs = other.backend_outputs;
             self.revision = other.revision;
+            self.sample_rate = other.sample_rate;
+        }
+        // All units of a network run at its sample rate.
+        if sample_rate_differs {
+            let sample_rate = self.sample_rate as f64;
+            for vertex in self.vertex.iter_mut() {
+                if other.node_index.contains_key(&vertex.id) == other_leads {
+                    continue;
+                }
+                vertex.unit.set_sample_rate(sample_rate);
+                for edit in [&mut vertex.next, &mut vertex.latest] {
+                    if let Some(unit) = edit.unit.as_deref_mut() {
+                        unit.set_sample_rate(sample_rate);
+                    }
+                }
+            }
         }
     }
 
-- 
2.43.0


From 6d0714ee9a82495b4de39353720398376ce55b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:07 +0000
Subject: [PATCH 11/44] fix: slot reset adopts units that were set before it

---
 src/slot.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/slot.rs b/src/slot.rs
index d061459..0657e90 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -168,6 +168,7 @@ impl SlotBackend {
 impl AudioUnit for SlotBackend {
     #[allow(clippy::needless_if)]
     fn reset(&mut self) {
+        self.handle_messages();
         // Adopt the latest configuration and reset the unit.
         if let Some(mut latest) = self.latest.take() {
             core::mem::swap(&mut self.current, &mut latest);
-- 
2.43.0


From 8e1f73b0325cc8cba35517357f770826a393c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:10 +0000
Subject: [PATCH 12/44] fix: units set to a slot run at the sample rate of the
 slot

---
 src/slot.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/slot.rs b/src/slot.rs
index 0657e90..e23daa9 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -4,6 +4,7 @@ use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
 use super::sequencer::*;
+use super::shared::Shared;
 use super::signal::*;
 use super::*;
 use thingbuf::mpsc::{channel, Receiver, Sender};
@@ -27,6 +28,8 @@ enum SlotMessage {
 pub struct Slot {
     inputs: usize,
     outputs: usize,
+    /// Sample rate of the backend.
+    sample_rate: Shared,
     receiver: Receiver<SlotMessage>,
     sender: Sender<SlotMessage>,
 }
@@ -39,9 +42,11 @@ impl Slot {
         let (sender_b, receiver_b) = channel(1024);
         let inputs = initial_unit.inputs();
         let outputs = initial_unit.outputs();
+        let shared_sample_rate = Shared::new(DEFAULT_SR as f32);
         let slot = Slot {
             inputs,
             outputs,
+            sample_rate: shared_sample_rate.clone(),
             receiver: receiver_a,
             sender: sender_b,
         };
@@ -51,6 +56,7 @@ impl Slot {
             inputs,
             outputs,
             sample_rate: DEFAULT_SR,
+            shared_sample_rate,
             current: initial_unit,
             next: None,
             fade: Fade::Smooth,
@@ -69,11 +75,13 @@ impl Slot {
 
     /// Set the unit. The current unit will be faded out and the new unit will be faded in
     /// simultaneously.
-    pub fn set(&mut self, fade: Fade, fade_time: f64, unit: Box<dyn AudioUnit>) {
+    pub fn set(&mut self, fade: Fade, fade_time: f64, mut unit: Box<dyn AudioUnit>) {
         assert_eq!(self.inputs, unit.inputs());
         assert_eq!(self.outputs, unit.outputs());
         // Deallocate units that were sent back.
         while self.receiver.try_recv().is_ok() {}
+        // Bring the unit to the sample rate of the backend here, as it may allocate.
+        unit.set_sample_rate(self.sample_rate.value() as f64);
         let message = SlotMessage::Update(fade, fade_time, unit);
         if self.sender.try_send(message).is_ok() {}
     }
@@ -93,6 +101,7 @@ pub struct SlotBackend {
     inputs: usize,
     outputs: usize,
     sample_rate: f64,
+    shared_sample_rate: Shared,
     current: Box<dyn AudioUnit>,
     next: Option<Box<dyn AudioUnit>>,
     fade: Fade,
@@ -115,6 +124,7 @@ impl Clone for SlotBackend {
             inputs: self.inputs,
             outputs: self.outputs,
             sample_rate: self.sample_rate,
+            shared_sample_rate: Shared::new(self.sample_rate as f32),
             current: self.current.clone(),
             next: self.next.clone(),
             fade: self.fade.clone(),
@@ -185,7 +195,9 @@ impl AudioUnit for SlotBackend {
 
     #[allow(clippy::unnecessary_cast)]
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        self.handle_messages();
         self.sample_rate = sample_rate;
+        self.shared_sample_rate.set_value(sample_rate as f32);
         self.current.set_sample_rate(sample_rate);
         if let Some(next) = self.next.as_deref_mut() {
             next.set_sample_rate(sample_rate);
-- 
2.43.0


From 8ea9bb4462a5070cc22f3af3ae1499b54b032500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:50 +0000
Subject: [PATCH 13/44] fix: events pushed through a sequencer frontend run at
 the sample rate of the backend

---
 src/realseq.rs   |  7 +++++++
 src/sequencer.rs | 22 ++++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/realseq.rs b/src/realseq.rs
index d6a286f..dd70985 100644
--- a/src/realseq.rs
+++ b/src/realseq.rs
@@ -4,6 +4,7 @@ use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
 use super::sequencer::*;
+use super::shared::Shared;
 use super::signal::*;
 use thingbuf::mpsc::{channel, Receiver, Sender};
 
@@ -27,6 +28,8 @@ pub struct SequencerBackend {
     pub(crate) sender: Sender<Option<Event>>,
     /// For receiving new events from the frontend.
     receiver: Receiver<Message>,
+    /// For telling our sample rate to the frontend.
+    shared_sample_rate: Shared,
     /// The backend sequencer.
     sequencer: Sequencer,
 }
@@ -39,6 +42,7 @@ impl Clone for SequencerBackend {
         SequencerBackend {
             sender: sender_1,
             receiver: receiver_2,
+            shared_sample_rate: Shared::new(self.shared_sample_rate.value()),
             sequencer: self.sequencer.clone(),
         }
     }
@@ -49,11 +53,13 @@ impl SequencerBackend {
     pub(crate) fn new(
         sender: Sender<Option<Event>>,
         receiver: Receiver<Message>,
+        shared_sample_rate: Shared,
         sequencer: Sequencer,
     ) -> Self {
         Self {
             sender,
             receiver,
+            shared_sample_rate,
             sequencer,
         }
     }
@@ -122,6 +128,7 @@ impl AudioUnit for SequencerBackend {
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.handle_messages();
+        self.shared_sample_rate.set_value(sample_rate as f32);
         self.sequencer.set_sample_rate(sample_rate);
     }
 
diff --git a/src/sequencer.rs b/src/sequencer.rs
index d4a3e73..65021b2 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -4,7 +4,7 @@ use super::audiounit::*;
 use super::buffer::*;
 use super::math::*;
 use super::realseq::*;
-use super::shared::IdGenerator;
+use super::shared::{IdGenerator, Shared};
 use super::signal::*;
 use super::*;
 use core::cmp::{Eq, Ord, Ordering};
@@ -244,6 +244,8 @@ pub struct Sequencer {
     tick_buffer: Vec<f32>,
     /// Optional frontend.
     front: Option<(Sender<Message>, Receiver<Option<Event>>)>,
+    /// Sample rate of the backend, if this is a frontend.
+    backend_sample_rate: Option<Shared>,
     /// Whether we replay existing events after a call to `reset`.
     replay_events: bool,
 }
@@ -267,6 +269,7 @@ impl Clone for Sequencer {
             buffer: self.buffer.clone(),
             tick_buffer: self.tick_buffer.clone(),
             front: None,
+            backend_sample_rate: None,
             replay_events: self.replay_events,
         }
     }
@@ -297,6 +300,7 @@ impl Sequencer {
             buffer: BufferVec::new(outputs),
             tick_buffer: vec![0.0; outputs],
             front: None,
+            backend_sample_rate: None,
             replay_events,
         }
     }
@@ -324,7 +328,7 @@ impl Sequencer {
         let duration = end_time - start_time;
         assert!(fade_in_time <= duration && fade_out_time <= duration);
         // Make sure the sample rate of the unit matches ours.
-        unit.set_sample_rate(self.sample_rate);
+        unit.set_sample_rate(self.unit_sample_rate());
         unit.allocate();
         let event = Event::new(
             unit,
@@ -339,6 +343,14 @@ impl Sequencer {
         id
     }
 
+    /// Sample rate where new units are going to be run.
+    fn unit_sample_rate(&self) -> f64 {
+        match &self.backend_sample_rate {
+            Some(sample_rate) => sample_rate.value() as f64,
+            None => self.sample_rate,
+        }
+    }
+
     /// Add event. This is an internal method.
     pub(crate) fn push_event(&mut self, event: Event) {
         if let Some((sender, receiver)) = &mut self.front {
@@ -372,7 +384,7 @@ impl Sequencer {
         let duration = end_time - start_time;
         assert!(fade_in_time <= duration && fade_out_time <= duration);
         // Make sure the sample rate of the unit matches ours.
-        unit.set_sample_rate(self.sample_rate);
+        unit.set_sample_rate(self.unit_sample_rate());
         unit.allocate();
         let event = Event::new(
             unit,
@@ -545,8 +557,10 @@ impl Sequencer {
         let (sender_b, receiver_b) = channel(2048);
         let mut sequencer = self.clone();
         sequencer.allocate();
+        let shared_sample_rate = Shared::new(self.sample_rate as f32);
         self.front = Some((sender_a, receiver_b));
-        SequencerBackend::new(sender_b, receiver_a, sequencer)
+        self.backend_sample_rate = Some(shared_sample_rate.clone());
+        SequencerBackend::new(sender_b, receiver_a, shared_sample_rate, sequencer)
     }
 
     /// Returns whether this sequencer has a backend.
-- 
2.43.0


From 090ed3442b5bf4ac5be5334a768e71bb3827f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:20 +0000
Subject: [PATCH 14/44] fix: settings sent to a listener are passed on to the
 listening node

---
 src/setting.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/setting.rs b/src/setting.rs
index 3b1770b..f6f66bc 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -275,7 +275,7 @@ impl<X: AudioNode> SettingListener<X> {
     }
     fn receive_settings(&mut self) {
         while let Result::Ok(setting) = self.rv.try_recv() {
-            self.set(setting);
+            self.x.set(setting);
         }
     }
 }
@@ -306,6 +306,11 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.x.process(size, input, output);
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.receive_settings();
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
@@ -314,4 +319,8 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.receive_settings();
         self.x.route(input, frequency)
     }
+
+    fn allocate(&mut self) {
+        self.x.allocate();
+    }
 }
-- 
2.43.0


From f81bf9b1755acf657180fafcb03829c387b6cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:20 +0000
Subject: [PATCH 15/44] fix: Net::check does not reject a network whose order
 has not been determined yet

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 9890595..3693009 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1034,6 +1034,10 @@ impl Net {
                     _ => (),
                 }
             }
+            // Source vertices are determined together with the order.
+            if !self.is_ordered() {
+                continue;
+            }
             if let Some((source_node, source_port)) = self.vertex[index].source_vertex {
                 assert!(source_node < self.size());
                 assert!(source_node != index);
-- 
2.43.0


From 1722c1620d89c0751c0f078da644719eb4f354de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:01 +0000
Subject: [PATCH 16/44] fix: negating a network or applying a scalar to it from
 the left keeps its sample rate

---
 src/net.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 3693009..93b6a88 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -978,6 +978,14 @@ impl Net {
         net
     }
 
+    /// Create a scalar network that has the sample rate of this network,
+    /// to serve as the left operand in an operation with it.
+    fn scalar_like(&self, channels: usize, scalar: f32) -> Net {
+        let mut net = Net::scalar(channels, scalar);
+        net.set_sample_rate(self.sample_rate as f64);
+        net
+    }
+
     /// Check internal consistency of the network. Panic if something is wrong.
     pub fn check(&self) {
         assert_eq!(self.input.channels(), self.inputs());
@@ -1876,7 +1884,7 @@ impl core::ops::Neg for Net {
     fn neg(self) -> Self::Output {
         // TODO. Optimize this.
         let n = self.outputs();
-        Net::scalar(n, f32::zero()) - self
+        self.scalar_like(n, f32::zero()) - self
     }
 }
 
@@ -2104,7 +2112,7 @@ impl core::ops::Add<Net> for f32 {
     #[inline]
     fn add(self, y: Net) -> Self::Output {
         let n = y.outputs();
-        Net::scalar(n, self) + y
+        y.scalar_like(n, self) + y
     }
 }
 
@@ -2122,7 +2130,7 @@ impl core::ops::Sub<Net> for f32 {
     #[inline]
     fn sub(self, y: Net) -> Self::Output {
         let n = y.outputs();
-        Net::scalar(n, self) - y
+        y.scalar_like(n, self) - y
     }
 }
 
@@ -2140,6 +2148,6 @@ impl core::ops::Mul<Net> for f32 {
     #[inline]
     fn mul(self, y: Net) -> Self::Output {
         let n = y.outputs();
-        Net::scalar(n, self) * y
+        y.scalar_like(n, self) * y
     }
 }
-- 
2.43.0


From 6da0fdcfa14abefc173067d2614107e6ca0cedc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:16 +0000
Subject: [PATCH 17/44] fix: reset of a new wavetable oscillator does not
 change its phase

---
 src/wavetable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index 03c78a2..dcb0a11 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -276,7 +276,7 @@ where
     N: Size<f32>,
 {
     pub fn new(table: Arc<Wavetable>) -> Self {
-        WaveSynth {
+        let mut node = WaveSynth {
             table,
             phase: 0.0,
             hash: 0,
@@ -285,7 +285,9 @@ where
             sample_rate: DEFAULT_SR as f32,
             sample_duration: 1.0 / DEFAULT_SR as f32,
             _marker: core::marker::PhantomData,
-        }
+        };
+        node.reset();
+        node
     }
 }
 
-- 
2.43.0


From 7a27bce909807af547dd96213a0d007d37beedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:16 +0000
Subject: [PATCH 18/44] fix: reset of an MLS generator returns to its initial
 state

---
 src/noise.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/noise.rs b/src/noise.rs
index be26ea5..44ed76d 100644
--- a/src/noise.rs
+++ b/src/noise.rs
@@ -100,16 +100,19 @@ impl MlsState {
 #[derive(Clone)]
 pub struct Mls {
     mls: MlsState,
+    /// State before any hash or seed has been set.
+    initial: MlsState,
     seed: Option<u64>,
-    hash: u64,
+    hash: Option<u64>,
 }
 
 impl Mls {
     pub fn new(mls: MlsState) -> Self {
         Self {
             mls,
+            initial: mls,
             seed: None,
-            hash: 0,
+            hash: None,
         }
     }
 }
@@ -120,8 +123,10 @@ impl AudioNode for Mls {
     type Outputs = typenum::U1;
 
     fn reset(&mut self) {
-        let hash = self.seed.unwrap_or(self.hash);
-        self.mls = MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32);
+        self.mls = match self.seed.or(self.hash) {
+            Some(hash) => MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32),
+            None => self.initial,
+        };
     }
 
     #[inline]
@@ -138,7 +143,7 @@ impl AudioNode for Mls {
     }
 
     fn set_hash(&mut self, hash: u64) {
-        self.hash = hash;
+        self.hash = Some(hash);
         self.reset();
     }
 
-- 
2.43.0


From efe6d4932724bff0e8de7ba8319b1d44da7186cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:16 +0000
Subject: [PATCH 19/44] fix: new adaptive shapes start from the same level
 estimate as after reset

---
 src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 6a349c4..1f52e33 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -178,7 +178,7 @@ impl<S: Shape> Adaptive<S> {
             inner,
             timescale,
             smoothing: 0.0,
-            state: 0.0,
+            state: 1.0e-3,
         };
         adaptive.set_sample_rate(DEFAULT_SR);
         adaptive
-- 
2.43.0


From 1d6c196880202b7806a875453006549f58b7c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:16 +0000
Subject: [PATCH 20/44] fix: sample rate of nonlinear biquads reaches their
 shapes

---
 src/biquad.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/biquad.rs b/src/biquad.rs
index 11929b1..d435e9c 100644
--- a/src/biquad.rs
+++ b/src/biquad.rs
@@ -535,6 +535,7 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FbBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -678,6 +679,7 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FixedFbBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -745,6 +747,8 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for DirtyBiquad<F, M, S> {
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape1.set_sample_rate(sample_rate);
+        self.shape2.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
@@ -898,6 +902,8 @@ impl<F: Real, M: BiquadMode<F>, S: Shape> AudioNode for FixedDirtyBiquad<F, M, S
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.params.sample_rate = F::from_f64(sample_rate);
         self.mode.update(&self.params, &mut self.coefs);
+        self.shape1.set_sample_rate(sample_rate);
+        self.shape2.set_sample_rate(sample_rate);
     }
 
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-- 
2.43.0


From 7141fc35caee53fb4520f8870d9d156c6930742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:16 +0000
Subject: [PATCH 21/44] fix: reset and sample rate of reverb reach its input
 diffusers

---
 src/reverb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index d3e2545..314bce9 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -217,6 +217,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     type Outputs = U2;
 
     fn reset(&mut self) {
+        for x in self.pre.iter_mut() {
+            x.reset();
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.reset();
@@ -232,6 +235,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        for x in self.pre.iter_mut() {
+            x.set_sample_rate(sample_rate);
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.set_sample_rate(sample_rate);
-- 
2.43.0


From 07c596494067a1545f0625afca1a3301afb67a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:16 +0000
Subject: [PATCH 22/44] fix: reset of limiter resets its level follower

---
 src/dynamics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index f30f263..3e43f7e 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -190,6 +190,7 @@ where
         if length != self.reducer.length {
             self.reducer = Self::new_buffer(sample_rate, self.lookahead);
         }
+        self.follower.reset();
         self.follower.set_sample_rate(sample_rate);
         self.reducer.clear();
         self.buffer.clear();
-- 
2.43.0


From a436f04eb5828abac2e3d72b1b18ebeeffaaf965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:16 +0000
Subject: [PATCH 23/44] fix: live ADSR envelopes do not share state with their
 clones and restart on reset

---
 src/adsr.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/adsr.rs b/src/adsr.rs
index 8cec74d..e53b353 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -15,7 +15,7 @@
 //! connected MIDI input device it finds, and play the corresponding pitches with the volume moderated by
 //! an `adsr_live()` envelope.
 
-use super::prelude::{clamp01, delerp, envelope2, lerp, shared, var, An, EnvelopeIn, Frame, U1};
+use super::prelude::{clamp01, delerp, envelope2, lerp, An, EnvelopeIn, Frame, U1};
 use super::Real;
 
 pub fn adsr_live(
@@ -26,27 +26,25 @@ pub fn adsr_live(
 ) -> An<EnvelopeIn<f32, impl FnMut(f32, &Frame<f32, U1>) -> f32 + Clone, U1, f32>> {
     let neg1 = -1.0;
     let zero = 0.0;
-    let a = shared(zero);
-    let b = shared(neg1);
-    let attack_start = var(&a);
-    let release_start = var(&b);
+    // These belong to each instance of the envelope. Time zero means that the envelope (re)starts.
+    let mut attack_start = zero;
+    let mut release_start = neg1;
     envelope2(move |time, control| {
-        if release_start.value() >= zero && control > zero {
-            attack_start.set_value(time);
-            release_start.set_value(neg1);
-        } else if release_start.value() < zero && control <= zero {
-            release_start.set_value(time);
+        if time <= zero {
+            attack_start = zero;
+            release_start = neg1;
         }
-        let ads_value = ads(attack, decay, sustain, time - attack_start.value());
-        if release_start.value() < zero {
+        if release_start >= zero && control > zero {
+            attack_start = time;
+            release_start = neg1;
+        } else if release_start < zero && control <= zero {
+            release_start = time;
+        }
+        let ads_value = ads(attack, decay, sustain, time - attack_start);
+        if release_start < zero {
             ads_value
         } else {
-            ads_value
-                * clamp01(delerp(
-                    release_start.value() + release,
-                    release_start.value(),
-                    time,
-                ))
+            ads_value * clamp01(delerp(release_start + release, release_start, time))
         }
     })
 }
-- 
2.43.0


From 35e85a69a795c2341059b1017dcb1046f50b5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:16 +0000
Subject: [PATCH 24/44] fix: subsampled filters read their inputs at the first
 sample after a reset

---
 src/svf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/svf.rs b/src/svf.rs
index 77f5f9e..0d4b98a 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -822,7 +822,8 @@ where
     fn reset(&mut self) {
         self.ic1eq = F::zero();
         self.ic2eq = F::zero();
-        self.counter = 0;
+        // Read the inputs at the first sample.
+        self.counter = self.period.saturating_sub(1);
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
@@ -854,7 +855,7 @@ where
     fn set(&mut self, setting: Setting) {
         if let Parameter::Subsample(period) = setting.parameter() {
             self.period = max(1, *period);
-            self.counter = 0;
+            self.counter = self.period.saturating_sub(1);
         }
     }
 
-- 
2.43.0


From 8f23b084101cdcd78567f4c3ca2591cab9f9082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:16 +0000
Subject: [PATCH 25/44] fix: processing an empty block does not advance an
 envelope

---
 src/envelope.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 5d2366a..68c8a4e 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -137,6 +137,9 @@ where
     }
 
     fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
+        if size == 0 {
+            return;
+        }
         if self.t >= self.t_1 {
             self.next_segment();
         }
-- 
2.43.0


From 66d76d48fd9a51c313c98de9d0672c1751b10766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:31 +0000
Subject: [PATCH 26/44] fix: linear taps near the maximum delay are not
 overwritten in block processing

---
 src/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/delay.rs b/src/delay.rs
index 8bb1f8c..9e9152f 100644
--- a/src/delay.rs
+++ b/src/delay.rs
@@ -437,7 +437,7 @@ where
         let sample_rate = sample_rate as f32;
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
-            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0;
+            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0 + SIMD_N as f32;
             let buffer_length = (buffer_length as usize).next_power_of_two();
             self.buffer.resize(buffer_length, 0.0);
             self.reset();
-- 
2.43.0


From 06a9575bbbbb8868d839638cc93308c5b7e8ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:07 +0000
Subject: [PATCH 27/44] fix: envelopes evaluate the next segment when it is
 rendered, also in block processing

---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 68c8a4e..436df2c 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -159,7 +159,7 @@ where
             }
             i += loop_samples;
             self.t += F::new(loop_samples as i64) * self.sample_duration;
-            if loop_samples == segment_samples_left {
+            if loop_samples == segment_samples_left && i < size {
                 self.next_segment();
             }
         }
-- 
2.43.0


From 9c3ff39a3da3da3a019ce55fd78eb7bfe8f7c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:07 +0000
Subject: [PATCH 28/44] fix: the current segment of an envelope follows sample
 rate changes

---
 src/envelope.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index 436df2c..2c44591 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -123,6 +123,12 @@ where
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.sample_duration = convert(1.0 / sample_rate);
+        if self.t_1 > self.t_0 {
+            // The current segment proceeds at the new rate.
+            let samples = (self.t_1 - self.t_0) / self.sample_duration;
+            self.value_d =
+                Frame::generate(|i| (self.value_1[i] - self.value_0[i]) / samples.to_f32());
+        }
     }
 
     #[inline]
@@ -302,6 +308,12 @@ where
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
         self.sample_duration = convert(1.0 / sample_rate);
+        if self.t_1 > self.t_0 {
+            // The current segment proceeds at the new rate.
+            let samples = (self.t_1 - self.t_0) / self.sample_duration;
+            self.value_d =
+                Frame::generate(|i| (self.value_1[i] - self.value_0[i]) / samples.to_f32());
+        }
     }
 
     #[inline]
-- 
2.43.0


From 5497d0a74b31d6ae83f0734bcc6368adf1233b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:52 +0000
Subject: [PATCH 29/44] fix: pseudorandom phases of a nested network do not
 depend on when its order is determined

---
 src/net.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 93b6a88..0f6bf45 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -846,9 +846,6 @@ impl Net {
         for j in 0..self.vertex.len() {
             self.vertex[j].update_source_vertex();
         }
-        // Update net hash. We have designed the hash to depend on vertices but not edges.
-        let hash = self.ping(true, AttoHash::new(ID));
-        self.ping(false, hash);
         let mut order = match self.order.take() {
             Some(v) => v,
             None => Vec::with_capacity(self.vertex.len()),
@@ -859,6 +856,9 @@ impl Net {
             self.error = Some(NetError::Cycle);
         }
         self.order = Some(order);
+        // Update net hash. We have designed the hash to depend on vertices but not edges.
+        let hash = self.ping(true, AttoHash::new(ID));
+        self.ping(false, hash);
     }
 
     /// Determine node order in the supplied vector. Returns true if successful, false
@@ -1420,6 +1420,10 @@ impl AudioUnit for Net {
     }
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
+        // Determining the order later would override the hash.
+        if !self.is_ordered() {
+            self.determine_order();
+        }
         let mut hash = hash.hash(ID);
         for x in self.vertex.iter_mut() {
             hash = x.unit.ping(probe, hash);
-- 
2.43.0


From 24ad201a3127a658701ddbd0ee168c07ba9daa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:37 +0000
Subject: [PATCH 30/44] fix: limiter lets the first sample of the stream
 through unlimited

---
 src/dynamics.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 3e43f7e..babebca 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -204,8 +204,11 @@ where
             // We are filling up the initial buffer.
             self.buffer.push(input.clone());
             if self.buffer.len() == self.reducer.length() {
-                // When the buffer is full, start following from its total peak.
-                self.follower.set_value(self.reducer.total());
+                // When the buffer is full, start following from its total peak. The first step
+                // of the follower is immediate. The first sample in the buffer leaves the reducer
+                // before it is output, so it must be followed already here.
+                self.follower
+                    .filter_mono(max(1.0, self.reducer.total() * 1.10));
             }
             self.advance();
             Frame::default()
-- 
2.43.0


From 8d539a1469d6673ad9a63c55d7b0806a26c37847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:37 +0000
Subject: [PATCH 31/44] verif hook: schedule points in IdGenerator (cfg
 fundsp_verif)

---
 src/shared.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/shared.rs b/src/shared.rs
index ac60ec5..7aba5e7 100644
--- a/src/shared.rs
+++ b/src/shared.rs
@@ -400,6 +400,12 @@ pub struct IdGenerator {
 /// we attempt to rewind it and increment the high word.
 const DANGER: u32 = 0xfff00000;
 
+// Verification hook: called before each atomic operation of `IdGenerator::get_id`.
+#[cfg(fundsp_verif)]
+extern "Rust" {
+    fn fundsp_verif_point();
+}
+
 impl IdGenerator {
     pub const fn new() -> Self {
         Self {
@@ -408,9 +414,19 @@ impl IdGenerator {
         }
     }
 
+    /// Verification hook: continue as if all low words before this one had been handed out.
+    #[cfg(fundsp_verif)]
+    pub fn verif_skip_to(&self, low: u32) {
+        self.low.fetch_max(low, Ordering::SeqCst);
+    }
+
     /// Generate a unique 64-bit ID.
     pub fn get_id(&self) -> u64 {
         // TODO. I have no idea whether the atomic orderings are correct in the following.
+        #[cfg(fundsp_verif)]
+        unsafe {
+            fundsp_verif_point()
+        };
         let low = self
             .low
             .fetch_update(Ordering::Release, Ordering::Acquire, |x| {
@@ -418,7 +434,15 @@ impl IdGenerator {
             })
             .unwrap();
         if low < DANGER {
+            #[cfg(fundsp_verif)]
+            unsafe {
+                fundsp_verif_point()
+            };
             let high = self.high.load(Ordering::Acquire);
+            #[cfg(fundsp_verif)]
+            unsafe {
+                fundsp_verif_point()
+            };
             let low_again = self.low.load(Ordering::Acquire);
             if low_again < low || low_again >= DANGER {
                 // The low word has spilled over, so we cannot trust the high word value. Try again.
@@ -429,12 +453,20 @@ impl IdGenerator {
         } else {
             // We are in the danger zone. Our goal is to wind back the low word to the beginning
             // while manipulating the high word to stay unique.
+            #[cfg(fundsp_verif)]
+            unsafe {
+                fundsp_verif_point()
+            };
             let high = self
                 .high
                 .fetch_update(Ordering::Release, Ordering::Acquire, |x| {
                     Some(x.wrapping_add(1))
                 })
                 .unwrap();
+            #[cfg(fundsp_verif)]
+            unsafe {
+                fundsp_verif_point()
+            };
             let _ = self
                 .low
                 .fetch_update(Ordering::Release, Ordering::Acquire, |x| {
-- 
2.43.0


From abcc1f0c82e60d42e029f96bd09d370ce1715494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:27 +0000
Subject: [PATCH 32/44] fix: envelope falls behind when its interval is shorter
 than a sample

---
 src/envelope.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 2c44591..5814189 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -133,7 +133,7 @@ where
 
     #[inline]
     fn tick(&mut self, _input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-        if self.t >= self.t_1 {
+        while self.t >= self.t_1 {
             self.next_segment();
         }
         let output = self.value.clone();
@@ -146,7 +146,7 @@ where
         if size == 0 {
             return;
         }
-        if self.t >= self.t_1 {
+        while self.t >= self.t_1 {
             self.next_segment();
         }
         let mut i = 0;
@@ -167,6 +167,9 @@ where
             self.t += F::new(loop_samples as i64) * self.sample_duration;
             if loop_samples == segment_samples_left && i < size {
                 self.next_segment();
+                while self.t >= self.t_1 {
+                    self.next_segment();
+                }
             }
         }
     }
@@ -318,7 +321,7 @@ where
 
     #[inline]
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
-        if self.t >= self.t_1 {
+        while self.t >= self.t_1 {
             self.next_segment(input);
         }
         let output = self.value.clone();
@@ -331,7 +334,7 @@ where
         if size == 0 {
             return;
         }
-        if self.t >= self.t_1 {
+        while self.t >= self.t_1 {
             self.next_segment(&Frame::generate(|j| input.at_f32(j, 0)));
         }
         let mut i = 0;
@@ -351,7 +354,11 @@ where
             i += loop_samples;
             self.t += F::new(loop_samples as i64) * self.sample_duration;
             if loop_samples == segment_samples_left && i < size {
-                self.next_segment(&Frame::generate(|j| input.at_f32(j, i)));
+                let frame = Frame::generate(|j| input.at_f32(j, i));
+                self.next_segment(&frame);
+                while self.t >= self.t_1 {
+                    self.next_segment(&frame);
+                }
             }
         }
     }
-- 
2.43.0


From 420716be06a62ef8a332d4081079f484cad20dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:40 +0000
Subject: [PATCH 33/44] fix: adsr_live with zero release time never releases

---
 src/adsr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/adsr.rs b/src/adsr.rs
index e53b353..3f0e648 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -44,7 +44,13 @@ pub fn adsr_live(
         if release_start < zero {
             ads_value
         } else {
-            ads_value * clamp01(delerp(release_start + release, release_start, time))
+            // The release may be instantaneous.
+            let release_value = if time < release_start + release {
+                clamp01(delerp(release_start + release, release_start, time))
+            } else {
+                zero
+            };
+            ads_value * release_value
         }
     })
 }
-- 
2.43.0


From 2342105fe2b3e9a50adac4916660f7900e7a2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:40 +0000
Subject: [PATCH 34/44] fix: adsr_live sounds before its control input has
 opened

---
 src/adsr.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/adsr.rs b/src/adsr.rs
index 3f0e648..84e253d 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -29,10 +29,20 @@ pub fn adsr_live(
     // These belong to each instance of the envelope. Time zero means that the envelope (re)starts.
     let mut attack_start = zero;
     let mut release_start = neg1;
+    // Whether the control input has been positive yet.
+    let mut opened = false;
     envelope2(move |time, control| {
         if time <= zero {
             attack_start = zero;
             release_start = neg1;
+            opened = false;
+        }
+        if !opened && control <= zero {
+            return zero;
+        }
+        if !opened {
+            opened = true;
+            attack_start = time;
         }
         if release_start >= zero && control > zero {
             attack_start = time;
-- 
2.43.0


From f72c257394f064733609fe3530bbf118153b48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:52 +0000
Subject: [PATCH 35/44] fix: generators without inputs have no latency, so it
 is never compensated

---
 src/signal.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/signal.rs b/src/signal.rs
index 5f6346f..a797715 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -176,6 +176,11 @@ impl Routing {
     /// Routes signals from input to output.
     pub fn route(&self, input: &SignalFrame, outputs: usize) -> SignalFrame {
         let mut output = SignalFrame::new(outputs);
+        if let Routing::Generator(latency) = self {
+            // Generators may have no inputs.
+            output.fill(Signal::Latency(*latency));
+            return output;
+        }
         if input.is_empty() {
             return output;
         }
@@ -215,11 +220,7 @@ impl Routing {
                     output.set(i, input.at(input.len() - 1 - i));
                 }
             }
-            Routing::Generator(latency) => {
-                for i in 0..outputs {
-                    output.set(i, Signal::Latency(*latency));
-                }
-            }
+            Routing::Generator(_) => (),
         }
         output
     }
-- 
2.43.0


From 36ea6a80fef475815299ee8d4fc0743831106038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:52 +0000
Subject: [PATCH 36/44] fix: arbitrary routing adds its latency more than once

---
 src/signal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/signal.rs b/src/signal.rs
index a797715..6371f5c 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -186,11 +186,11 @@ impl Routing {
         }
         match self {
             Routing::Arbitrary(latency) => {
-                let mut combo = input.at(0).distort(*latency);
+                let mut combo = input.at(0).distort(0.0);
                 for i in 1..input.len() {
-                    combo = combo.combine_nonlinear(input.at(i), *latency);
+                    combo = combo.combine_nonlinear(input.at(i), 0.0);
                 }
-                output.fill(combo);
+                output.fill(combo.distort(*latency));
             }
             Routing::Split => {
                 for i in 0..outputs {
-- 
2.43.0


From 4f176c558c06af2433056065c0f67634a91a3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:52 +0000
Subject: [PATCH 37/44] fix: rendering compensates for the latency at another
 sample rate

---
 src/wave.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wave.rs b/src/wave.rs
index cc3a056..1ca8d44 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -477,6 +477,9 @@ impl Wave {
         assert_eq!(node.inputs(), 0);
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // The latency may depend on the sample rate.
+        node.set_sample_rate(sample_rate);
+        node.reset();
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
@@ -572,6 +575,8 @@ impl Wave {
         assert_eq!(node.inputs(), self.channels());
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // The latency may depend on the sample rate.
+        node.set_sample_rate(self.sample_rate());
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
-- 
2.43.0


From a8c5aacaecb9dd3f1a6659f2e6af9b49ff44a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:52 +0000
Subject: [PATCH 38/44] fix: signal analysis of stacki and sumi passes all
 inputs to the first node

---
 src/audionode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index c02518e..b61ad13 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -2063,7 +2063,8 @@ where
         if self.x.is_empty() {
             return SignalFrame::new(self.outputs());
         }
-        let mut output = self.x[0].route(input, frequency);
+        let mut output =
+            self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         output.resize(self.outputs());
         for i in 1..N::USIZE {
             let output_i = self.x[i].route(
@@ -2202,7 +2203,8 @@ where
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-        let mut output = self.x[0].route(input, frequency);
+        let mut output =
+            self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         for j in 1..self.x.len() {
             let output_j = self.x[j].route(
                 &SignalFrame::copy(input, j * X::Inputs::USIZE, X::Inputs::USIZE),
-- 
2.43.0


From dbf8082b0abe594bbf7d437acbc6caf397ab3998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:52 +0000
Subject: [PATCH 39/44] fix: latency of feedback ignores the latency of its
 contents

---
 src/feedback.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/feedback.rs b/src/feedback.rs
index f24ad25..ef3d217 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -145,8 +145,9 @@ where
         }
     }
 
-    fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
-        Routing::Arbitrary(0.0).route(input, self.outputs())
+    fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
+        let output = self.x.route(input, frequency);
+        Routing::Arbitrary(0.0).route(&output, self.outputs())
     }
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
@@ -257,8 +258,9 @@ where
         }
     }
 
-    fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
-        Routing::Arbitrary(0.0).route(input, self.outputs())
+    fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
+        let output = self.x.route(input, frequency);
+        Routing::Arbitrary(0.0).route(&output, self.outputs())
     }
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
@@ -416,8 +418,9 @@ impl AudioUnit for FeedbackUnit {
         self.feedback.len()
     }
 
-    fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
-        Routing::Arbitrary(0.0).route(input, self.outputs())
+    fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
+        let output = self.x.route(input, frequency);
+        Routing::Arbitrary(0.0).route(&output, self.outputs())
     }
 
     fn get_id(&self) -> u64 {
-- 
2.43.0


From 607cfab1b0b4b13e4e7a89e81c4b294a40d26f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:52 +0000
Subject: [PATCH 40/44] fix: latency of oversampled nodes is reported in
 oversampled samples

---
 src/oversample.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/oversample.rs b/src/oversample.rs
index 3cf7f3a..82489e5 100644
--- a/src/oversample.rs
+++ b/src/oversample.rs
@@ -280,7 +280,21 @@ where
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-        self.x.route(input, frequency)
+        // The latency of the contained node is in oversampled samples.
+        let scale_latency = |signal: Signal, factor: f64| match signal {
+            Signal::Latency(l) => Signal::Latency(l * factor),
+            Signal::Response(response, l) => Signal::Response(response, l * factor),
+            x => x,
+        };
+        let mut over_input = input.clone();
+        for i in 0..over_input.len() {
+            over_input.set(i, scale_latency(over_input.at(i), 2.0));
+        }
+        let mut output = self.x.route(&over_input, frequency);
+        for i in 0..output.len() {
+            output.set(i, scale_latency(output.at(i), 0.5));
+        }
+        output
     }
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
-- 
2.43.0


From 54bce2870632b02872aae2981172c137ef3e2c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:04 +0000
Subject: [PATCH 41/44] fix: response of the morphing filter ignores the
 response of its input

---
 src/svf.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/svf.rs b/src/svf.rs
index 0d4b98a..960084b 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -1115,9 +1115,12 @@ impl<F: Real> AudioNode for Morph<F> {
         let mut output = self.filter.route(input, frequency);
         output.set(
             0,
-            output.at(0).filter(0.0, |r| {
-                (r + Complex64::new(self.morph.to_f64(), 0.0)) * 0.5
-            }),
+            output.at(0).combine_linear(
+                input.at(0),
+                0.0,
+                |y, x| (y + self.morph.to_f64() * x) * 0.5,
+                |y, x| (y + self.morph.to_f64() * x) * 0.5,
+            ),
         );
         output
     }
-- 
2.43.0


From bfae9de2207d4b48646098386ff9c1dc87cdb7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:47 +0000
Subject: [PATCH 42/44] fix: retaining a span beyond the end of a wave panics

---
 src/wave.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wave.rs b/src/wave.rs
index 1ca8d44..353cced 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -305,8 +305,9 @@ impl Wave {
     /// Only the part of the span overlapping the wave is considered.
     /// That is, the offset may be negative and the end of the span may lie beyond the end of the wave.
     pub fn retain(&mut self, start: isize, length: usize) {
-        let i0 = max(start, 0) as usize;
-        let i1 = min(self.length(), max(0, start + length as isize) as usize);
+        let i0 = min(self.length(), max(start, 0) as usize);
+        let end = start.saturating_add(min(length, isize::MAX as usize) as isize);
+        let i1 = min(self.length(), max(i0 as isize, end) as usize);
         if i0 > 0 {
             for channel in 0..self.channels() {
                 for i in i0..i1 {
-- 
2.43.0


From 8c6c2a3d99ce4d6a70a4730331cd9fe9cbcd2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:03 +0000
Subject: [PATCH 43/44] fix: preallocate the whole look-ahead of a limiter that
 has been played, and the feedback node of feedback2

---
 src/dynamics.rs | 4 ++--
 src/feedback.rs | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index babebca..c351dfe 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -234,9 +234,9 @@ where
     }
 
     fn allocate(&mut self) {
-        if self.buffer.capacity() < self.reducer.length() {
+        if self.buffer.len() < self.reducer.length() {
             self.buffer
-                .reserve(self.reducer.length() - self.buffer.capacity());
+                .reserve(self.reducer.length() - self.buffer.len());
         }
     }
 }
diff --git a/src/feedback.rs b/src/feedback.rs
index ef3d217..b67660b 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -269,6 +269,7 @@ where
 
     fn allocate(&mut self) {
         self.x.allocate();
+        self.y.allocate();
     }
 }
 
-- 
2.43.0


From 02078b53706b9b9b97791cc6229fb91d95606b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:36 +0000
Subject: [PATCH 44/44] fix: allocate units that are faded in ahead of time

---
 src/net.rs    | 5 +++++
 src/slot.rs   | 1 +
 src/vertex.rs | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 0f6bf45..4db3d9d 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1476,6 +1476,11 @@ impl AudioUnit for Net {
         for vertex in self.vertex.iter_mut() {
             vertex.allocate();
         }
+        for edit in self.edit_queue.iter_mut() {
+            if let Some(unit) = &mut edit.unit {
+                unit.allocate();
+            }
+        }
     }
 }
 
diff --git a/src/slot.rs b/src/slot.rs
index e23daa9..b98d3b7 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -82,6 +82,7 @@ impl Slot {
         while self.receiver.try_recv().is_ok() {}
         // Bring the unit to the sample rate of the backend here, as it may allocate.
         unit.set_sample_rate(self.sample_rate.value() as f64);
+        unit.allocate();
         let message = SlotMessage::Update(fade, fade_time, unit);
         if self.sender.try_send(message).is_ok() {}
     }
diff --git a/src/vertex.rs b/src/vertex.rs
index d455293..efbb502 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -93,6 +93,11 @@ impl Vertex {
     /// Preallocate everything.
     pub fn allocate(&mut self) {
         self.unit.allocate();
+        for edit in [&mut self.next, &mut self.latest] {
+            if let Some(unit) = &mut edit.unit {
+                unit.allocate();
+            }
+        }
     }
 
     /// Calculate source vertex and source port.
-- 
2.43.0

