From 709a4022224cb3cba9a425a4f1cacd7ea2d9d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 01/32] fix: dropping a connected node removes its connections
 instead of panicking the audio thread

---
 src/realtime/graph.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index c4e5413..9c0b66b 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -75,21 +75,32 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
     }
 
     pub fn remove_edge(&mut self, from_node_id: Id, to_node_id: Id) -> Option<EdgeData> {
-        let id = self.find_edge_between_nodes(from_node_id, to_node_id);
+        let id = self.find_edge_between_nodes(from_node_id, to_node_id)?;
+        self.remove_edge_with_id(id)
+    }
 
-        if let Some(id) = id {
-            if let Some((_, edge)) = self.edges.remove_entry(&id) {
-                replace_connections(self, Direction::Outgoing, id, edge.next_out);
-                replace_connections(self, Direction::Incoming, id, edge.next_in);
+    fn remove_edge_with_id(&mut self, id: Id) -> Option<EdgeData> {
+        if let Some((_, edge)) = self.edges.remove_entry(&id) {
+            replace_connections(self, Direction::Outgoing, id, edge.next_out);
+            replace_connections(self, Direction::Incoming, id, edge.next_in);
 
-                return Some(edge.edge_data);
-            }
+            return Some(edge.edge_data);
         }
 
         None
     }
 
+    fn remove_edges_connected_to_node(&mut self, id: Id) {
+        for direction in [Direction::Incoming, Direction::Outgoing] {
+            while let Some(edge_id) = self.edge_iterator(id, direction).next() {
+                self.remove_edge_with_id(edge_id);
+            }
+        }
+    }
+
     pub fn remove_node(&mut self, id: Id) -> Option<NodeData> {
+        self.remove_edges_connected_to_node(id);
+
         if let Some((_, node)) = self.nodes.remove_entry(&id) {
             assert!(node.incoming.is_none());
             assert!(node.outgoing.is_none());
-- 
2.43.0


From d2cb0331348a2cbd80a4cc842efffd8a646d201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 02/32] fix: parallel connections between two nodes are not a
 cycle

---
 src/realtime/graph.rs            |  5 -----
 src/realtime/topological_sort.rs | 10 ++++------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index 9c0b66b..d3992c8 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -119,11 +119,6 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         self.nodes.insert(id, Node::new(node_data));
     }
 
-    pub fn is_connected_to(&self, from_node_id: Id, to_node_id: Id) -> bool {
-        NodeIterator::new(from_node_id, Direction::Outgoing, &self.nodes, &self.edges)
-            .any(|id| id == to_node_id)
-    }
-
     pub fn node_iter(&self, node_id: Id, direction: Direction) -> NodeIterator<NodeData, EdgeData> {
         NodeIterator::new(node_id, direction, &self.nodes, &self.edges)
     }
diff --git a/src/realtime/topological_sort.rs b/src/realtime/topological_sort.rs
index b334b5e..e399247 100644
--- a/src/realtime/topological_sort.rs
+++ b/src/realtime/topological_sort.rs
@@ -35,12 +35,10 @@ impl TopologicalSort {
             self.order.push(next_node_id);
             self.dependency_count.remove(&next_node_id);
 
-            for node_id in graph.all_node_ids() {
-                if graph.is_connected_to(next_node_id, *node_id) {
-                    let previous_value = self.dependency_count.get_mut(node_id).unwrap();
-                    assert!(*previous_value > 0);
-                    *previous_value -= 1;
-                }
+            for node_id in graph.node_iter(next_node_id, Direction::Outgoing) {
+                let previous_value = self.dependency_count.get_mut(&node_id).unwrap();
+                assert!(*previous_value > 0);
+                *previous_value -= 1;
             }
         }
 
-- 
2.43.0


From 575a87466291cf8763a304836e75969c16b0d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 03/32] fix: disconnecting two nodes removes every connection
 between them

---
 src/realtime/dsp_graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 5995716..59ae932 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -157,8 +157,11 @@ impl DspGraph {
     }
 
     pub fn remove_connection(&mut self, connection: Connection) {
-        self.graph
-            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id);
+        while self
+            .graph
+            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id)
+            .is_some()
+        {}
 
         self.mark_graph_needs_sort();
     }
-- 
2.43.0


From 4debb9b700e4c4bc37e44b10c5664b8439cbdd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 04/32] fix: a connection of fewer channels does not leak the
 remaining source channels

---
 src/realtime/dsp_graph.rs | 7 ++++++-
 src/realtime/graph.rs     | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 59ae932..ae0fec7 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -373,7 +373,12 @@ fn prepare_single_input_node(
 
     let edge = graph.get_edge(edge_id).unwrap();
 
-    if edge.edge_data.destination_input_channel == 0 && edge.edge_data.source_output_channel == 0 {
+    let input_count = graph.get_node(dsp_id).map_or(0, |dsp| dsp.input_count());
+
+    if edge.edge_data.destination_input_channel == 0
+        && edge.edge_data.source_output_channel == 0
+        && edge.edge_data.channel_count >= input_count
+    {
         let input_endpoint = Endpoint::new(edge.from_node_id, EndpointType::Output);
 
         return (
diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index d3992c8..8b2e28a 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -110,6 +110,10 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         None
     }
 
+    pub fn get_node(&self, id: Id) -> Option<&NodeData> {
+        self.nodes.get(&id).map(|node| &node.node_data)
+    }
+
     pub fn get_node_mut(&mut self, id: Id) -> Option<&mut NodeData> {
         self.nodes.get_mut(&id).map(|node| &mut node.node_data)
     }
-- 
2.43.0


From 8b4d3ac57836ac2d2f91b911d59c3478efb9d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 05/32] fix: the system input is mixed with the other inputs of
 the node it is connected to

---
 src/realtime/dsp_graph.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index ae0fec7..a8a4a51 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -292,8 +292,6 @@ fn copy_output_from_dependencies(
     destination_buffer: &mut dyn AudioBuffer,
     frame_count: usize,
 ) {
-    let mut mix_behaviour = MixBehaviour::Overwrite;
-
     for edge_id in graph.edge_iterator(dsp_id, Direction::Incoming) {
         let edge = graph.get_edge(edge_id).expect("Edge not found");
 
@@ -307,10 +305,8 @@ fn copy_output_from_dependencies(
             edge.edge_data.destination_input_channel,
             edge.edge_data.channel_count,
             frame_count,
-            mix_behaviour,
+            MixBehaviour::Mix,
         );
-
-        mix_behaviour = MixBehaviour::Mix;
     }
 }
 
@@ -396,9 +392,13 @@ fn prepare_input(
     dsp_id: Id,
     frame_count: usize,
 ) -> (OwnedAudioBuffer, Endpoint) {
+    let has_system_input = buffer_pools
+        .assigned
+        .has(&Endpoint::new(dsp_id, EndpointType::Input));
+
     match graph.connection_count(dsp_id, Direction::Incoming) {
         0 => prepare_zero_input_node(buffer_pools, dsp_id),
-        1 => prepare_single_input_node(buffer_pools, graph, dsp_id, frame_count),
+        1 if !has_system_input => prepare_single_input_node(buffer_pools, graph, dsp_id, frame_count),
         _ => prepare_n_input_node(buffer_pools, graph, dsp_id, frame_count),
     }
 }
-- 
2.43.0


From a1775652b79fe8e9fe46396a54c7aade0490e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 06/32] fix: cancelling changes ending after a time keeps the
 earlier ones, not the later ones

---
 src/parameter/realtime_parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index cf94d35..9b0b686 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -173,7 +173,7 @@ impl RealtimeAudioParameter {
 
     pub fn cancel_scheduled_changes_ending_after(&mut self, time: &Timestamp) {
         self.parameter_changes
-            .retain(|change| change.end_time >= *time);
+            .retain(|change| change.end_time <= *time);
     }
 
     pub fn cancel_scheduled_changes(&mut self) {
-- 
2.43.0


From 158d21507af6d2e58576ddc22e78af93625c565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 07/32] fix: every parameter change that is due takes effect at
 its frame, not one per frame

---
 src/parameter/realtime_parameter.rs | 56 ++++++++++++++++-------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 9b0b686..01837f9 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -109,44 +109,52 @@ impl RealtimeAudioParameter {
         self.set_value(value);
     }
 
-    fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, value: f64) -> f64 {
-        if let Some(next_event) = self.parameter_changes.first() {
+    fn value_at_time(&mut self, time: &Timestamp, sample_rate: usize, mut value: f64) -> f64 {
+        while let Some(next_event) = self.parameter_changes.first() {
             match next_event.method {
                 ValueChangeMethod::Immediate => {
-                    if next_event.end_time <= *time {
-                        self.increment = 0.0;
-                        self.coefficient = 1.0;
-                        self.current_change = self.parameter_changes.remove(0);
+                    if next_event.end_time > *time {
+                        break;
                     }
+
+                    self.increment = 0.0;
+                    self.coefficient = 1.0;
                 }
                 ValueChangeMethod::Linear(start_time) => {
-                    if *time >= start_time {
-                        let duration = next_event.end_time.as_samples(sample_rate)
-                            - time.as_samples(sample_rate);
-                        let delta = next_event.value - value;
-
-                        self.increment = delta / duration;
-                        self.coefficient = 1.0;
-                        self.current_change = self.parameter_changes.remove(0);
+                    if *time < start_time {
+                        break;
                     }
+
+                    let duration = next_event.end_time.as_samples(sample_rate)
+                        - time.as_samples(sample_rate);
+                    let delta = next_event.value - value;
+
+                    self.increment = delta / duration;
+                    self.coefficient = 1.0;
                 }
                 ValueChangeMethod::Exponential(start_time) => {
-                    if *time >= start_time {
-                        debug_assert_ne!(next_event.value, 0.0);
-                        debug_assert_ne!(value, 0.0);
+                    if *time < start_time {
+                        break;
+                    }
 
-                        let ratio = next_event.value / value;
+                    debug_assert_ne!(next_event.value, 0.0);
+                    debug_assert_ne!(value, 0.0);
 
-                        let duration = next_event.end_time.as_samples(sample_rate)
-                            - time.as_samples(sample_rate);
+                    let ratio = next_event.value / value;
 
-                        self.increment = 0.0;
-                        self.coefficient = (ratio.ln() / duration).exp();
+                    let duration = next_event.end_time.as_samples(sample_rate)
+                        - time.as_samples(sample_rate);
 
-                        self.current_change = self.parameter_changes.remove(0);
-                    }
+                    self.increment = 0.0;
+                    self.coefficient = (ratio.ln() / duration).exp();
                 }
             };
+
+            self.current_change = self.parameter_changes.remove(0);
+
+            if self.current_change.end_time <= *time {
+                value = self.current_change.value;
+            }
         }
 
         if self.current_change.end_time <= *time {
-- 
2.43.0


From 3105c2486eca7ad734ecaaa6a6a1e437291dd521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 08/32] fix: parameter ramps never overshoot their target

---
 src/parameter/realtime_parameter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 01837f9..473633d 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -161,7 +161,10 @@ impl RealtimeAudioParameter {
             return self.current_change.value;
         }
 
-        (value * self.coefficient) + self.increment
+        let next_value = (value * self.coefficient) + self.increment;
+        let target = self.current_change.value;
+
+        next_value.clamp(value.min(target), value.max(target))
     }
 
     pub fn get_values(&self, frame_count: usize) -> &[f32] {
-- 
2.43.0


From c12cfadc132b1f3256a288f07e3ba4dc86e0dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 09/32] fix: the oscillator wraps around its wavetable instead
 of reading past its end

---
 src/effects/oscillator/oscillator_processor.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/effects/oscillator/oscillator_processor.rs b/src/effects/oscillator/oscillator_processor.rs
index 5a9a029..acb877c 100644
--- a/src/effects/oscillator/oscillator_processor.rs
+++ b/src/effects/oscillator/oscillator_processor.rs
@@ -17,7 +17,7 @@ impl OscillatorProcessor {
 
     fn increment_phase(&mut self, frequency: f32, sample_rate: usize) {
         self.phase += (frequency as f64) / (sample_rate as f64);
-        while self.phase > 1.0 {
+        while self.phase >= 1.0 {
             self.phase -= 1.0;
         }
     }
@@ -25,15 +25,11 @@ impl OscillatorProcessor {
     fn get_value(&self) -> f64 {
         let offset = self.phase * self.wavetable.len() as f64;
 
-        let offset_before = offset.floor() as usize;
-        let offset_after = offset.ceil() as usize;
+        let offset_before = offset.floor() as usize % self.wavetable.len();
+        let offset_after = offset.ceil() as usize % self.wavetable.len();
 
         let value_before = self.wavetable[offset_before];
-        let value_after = if offset_after < self.wavetable.len() {
-            self.wavetable[offset_after]
-        } else {
-            0.0
-        };
+        let value_after = self.wavetable[offset_after];
 
         let weighting = offset - offset.floor();
         interpolate(value_before, value_after, weighting)
-- 
2.43.0


From 601293b58f5139c8396c484e363cd006f0036684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 10/32] fix: the envelope node measures every frame of a block

---
 src/effects/envelope/envelope_processor.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index cc86591..0b54c53 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -44,9 +44,9 @@ impl DspProcessor for EnvelopeProcessor {
         let mut position = 0;
         let channel_count = context.input_buffer.channel_count();
 
-        while position < channel_count {
+        while position < context.input_buffer.frame_count() {
             let frame_count = std::cmp::min(
-                context.input_buffer.frame_count(),
+                context.input_buffer.frame_count() - position,
                 self.notification.samples_until_next_notification(),
             );
 
@@ -71,10 +71,7 @@ impl DspProcessor for EnvelopeProcessor {
                 }
             }
 
-            if self
-                .notification
-                .advance(context.input_buffer.frame_count())
-            {
+            if self.notification.advance(frame_count) {
                 self.send_notifications(channel_count);
             }
 
-- 
2.43.0


From 1ad9d696c5bbb8a2724436c46ce4405adabbfa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 11/32] fix: a full envelope notification queue does not block
 the audio thread

---
 src/effects/envelope/envelope_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index 0b54c53..15875a0 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -32,7 +32,7 @@ impl EnvelopeProcessor {
         for channel in 0..channel_count {
             let peak = self.peaks.get(channel).expect("Invalid channel index");
             let notification = EnvelopeNotification::new(channel, *peak);
-            let _ = self.transmitter.send(notification);
+            let _ = self.transmitter.try_send(notification);
         }
 
         self.peaks.fill_with(|| 0.0_f32);
-- 
2.43.0


From 10102157d3b7b63a8b96649bc9a8dd4ff43ac6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 12/32] fix: recording does not block or panic the audio thread
 when notifications are processed late

---
 src/effects/recorder/recorder_node.rs      |  4 +---
 src/effects/recorder/recorder_processor.rs | 11 +++++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/effects/recorder/recorder_node.rs b/src/effects/recorder/recorder_node.rs
index 674afca..a14e9b5 100644
--- a/src/effects/recorder/recorder_node.rs
+++ b/src/effects/recorder/recorder_node.rs
@@ -20,7 +20,6 @@ pub struct Recorder {
 }
 
 static EVENT_CHANNEL_CAPACITY: usize = 32;
-static NOTIFICATION_CHANNEL_CAPACITY: usize = 32;
 
 impl Recorder {
     /// Create a new recorder node
@@ -32,8 +31,7 @@ impl Recorder {
         let id = Id::generate();
 
         let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
-        let (notification_transmitter, notification_receiver) =
-            Channel::bounded(NOTIFICATION_CHANNEL_CAPACITY);
+        let (notification_transmitter, notification_receiver) = Channel::unbounded();
 
         let processor = Box::new(RecorderProcessor::new(
             sample_rate,
diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index e18be07..801c6ab 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -41,10 +41,13 @@ impl RecorderProcessor {
     }
 
     fn next_buffer(&mut self) {
-        let mut next_buffer = self
-            .buffer_pool
-            .remove()
-            .expect("Ran out of record buffers");
+        let mut next_buffer = self.buffer_pool.remove().unwrap_or_else(|| {
+            OwnedAudioBuffer::new(
+                self.current_buffer.frame_count(),
+                self.current_buffer.channel_count(),
+                self.sample_rate,
+            )
+        });
 
         let samples_used = self.current_position_in_buffer;
         self.current_position_in_buffer = 0;
-- 
2.43.0


From 198e2700042febd41f817190f4b909dfe9ec938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 13/32] fix: ADSR, mixer and recorder calls do not block the
 caller while audio is not running

---
 src/effects/adsr/adsr_node.rs         | 4 +---
 src/effects/mixer/mixer_node.rs       | 4 +---
 src/effects/recorder/recorder_node.rs | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/effects/adsr/adsr_node.rs b/src/effects/adsr/adsr_node.rs
index 08de08e..29256bb 100644
--- a/src/effects/adsr/adsr_node.rs
+++ b/src/effects/adsr/adsr_node.rs
@@ -12,14 +12,12 @@ pub struct Adsr {
     event_transmitter: Channel::Sender<AdsrEvent>,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Adsr {
     /// Create a new ADSR node
     pub fn new(context: &dyn Context, channel_count: usize, sample_rate: usize) -> Self {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(AdsrProcessor::new(
             event_receiver,
diff --git a/src/effects/mixer/mixer_node.rs b/src/effects/mixer/mixer_node.rs
index 4a92d08..d21700c 100644
--- a/src/effects/mixer/mixer_node.rs
+++ b/src/effects/mixer/mixer_node.rs
@@ -23,8 +23,6 @@ pub struct Mixer {
     event_transmitter: EventTransmitter,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Mixer {
     /// Create a new mixer node for a given input to output channel combination
     pub fn new(context: &dyn Context, input_count: usize, output_count: usize) -> Self {
@@ -32,7 +30,7 @@ impl Mixer {
 
         let gain_matrix = MixerMatrix::new(input_count, output_count);
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(MixerProcessor::new(event_receiver));
 
diff --git a/src/effects/recorder/recorder_node.rs b/src/effects/recorder/recorder_node.rs
index a14e9b5..e185143 100644
--- a/src/effects/recorder/recorder_node.rs
+++ b/src/effects/recorder/recorder_node.rs
@@ -19,8 +19,6 @@ pub struct Recorder {
     is_recording: bool,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Recorder {
     /// Create a new recorder node
     pub fn new(
@@ -30,7 +28,7 @@ impl Recorder {
     ) -> Rc<RefCell<Self>> {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
         let (notification_transmitter, notification_receiver) = Channel::unbounded();
 
         let processor = Box::new(RecorderProcessor::new(
-- 
2.43.0


From dd9680995b0637b4999a4acc6980c9aac8171a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 14/32] fix: dropping many nodes at once does not block the
 audio thread on the garbage collector

---
 src/realtime/dsp_graph.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index a8a4a51..179b662 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -21,7 +21,6 @@ pub struct DspGraph {
 static MAXIMUM_BUFFER_COUNT: usize = 1024;
 static MAXIMUM_GRAPH_NODE_COUNT: usize = 512;
 static MAXIMUM_GRAPH_EDGE_COUNT: usize = 512;
-static GARBAGE_COLLECTION_CHANNEL_CAPACITY: usize = 512;
 
 impl DspGraph {
     pub fn new(
@@ -29,8 +28,7 @@ impl DspGraph {
         maximum_channel_count: usize,
         sample_rate: usize,
     ) -> Self {
-        let (garbage_collection_tx, garbage_collection_rx) =
-            crossbeam::channel::bounded(GARBAGE_COLLECTION_CHANNEL_CAPACITY);
+        let (garbage_collection_tx, garbage_collection_rx) = crossbeam::channel::unbounded();
         run_garbage_collector(garbage_collection_rx);
 
         Self {
-- 
2.43.0


From 21549bb132f55fab2260c664298020bc938cf084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 15/32] fix: an ADSR release takes the release time and reaches
 zero from any level

---
 src/effects/adsr/adsr_envelope.rs | 35 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/effects/adsr/adsr_envelope.rs b/src/effects/adsr/adsr_envelope.rs
index 99e6a0e..f294051 100644
--- a/src/effects/adsr/adsr_envelope.rs
+++ b/src/effects/adsr/adsr_envelope.rs
@@ -42,11 +42,7 @@ impl AdsrEnvelope {
             attack_coefficient: calculate_attack_coefficient(attack_time, sample_rate),
             decay_coefficient: calculate_decay_coefficient(decay_time, sustain_level, sample_rate),
             sustain_level,
-            release_coefficient: calculate_release_coefficient(
-                release_time,
-                sustain_level,
-                sample_rate,
-            ),
+            release_coefficient: 0.0,
             decay_time,
             release_time,
         }
@@ -59,10 +55,19 @@ impl AdsrEnvelope {
     pub fn close(&mut self) {
         self.phase = match self.phase {
             Phase::Idle => Phase::Idle,
-            _ => Phase::Release,
+            Phase::Release => Phase::Release,
+            _ => {
+                self.update_release_coefficient();
+                Phase::Release
+            }
         };
     }
 
+    fn update_release_coefficient(&mut self) {
+        self.release_coefficient =
+            calculate_release_coefficient(self.release_time, self.envelope, self.sample_rate);
+    }
+
     pub fn set_attack_time(&mut self, attack_time: Duration) {
         self.attack_coefficient = calculate_attack_coefficient(attack_time, self.sample_rate);
     }
@@ -76,15 +81,12 @@ impl AdsrEnvelope {
     pub fn set_sustain_level(&mut self, sustain_level: Level) {
         self.decay_coefficient =
             calculate_decay_coefficient(self.decay_time, sustain_level, self.sample_rate);
-        self.release_coefficient =
-            calculate_release_coefficient(self.release_time, sustain_level, self.sample_rate);
         self.sustain_level = sustain_level;
     }
 
     pub fn set_release_time(&mut self, release_time: Duration) {
-        self.release_coefficient =
-            calculate_release_coefficient(release_time, self.sustain_level, self.sample_rate);
         self.release_time = release_time;
+        self.update_release_coefficient();
     }
 
     pub fn process(&mut self) -> f64 {
@@ -116,13 +118,14 @@ impl AdsrEnvelope {
             Phase::Release => {
                 let output =
                     process_exponential(self.envelope, RELEASE_TARGET, self.release_coefficient);
-                let output = output.max(0.0);
+                let made_progress = output < self.envelope;
 
-                if output <= 0.0 {
+                if output <= 0.0 || !made_progress {
                     self.phase = Phase::Idle;
+                    0.0
+                } else {
+                    output
                 }
-
-                output
             }
         };
 
@@ -164,11 +167,11 @@ fn calculate_decay_coefficient(
 
 fn calculate_release_coefficient(
     release_time: Duration,
-    sustain_level: Level,
+    start_level: f64,
     sample_rate: usize,
 ) -> f64 {
     calculate_coefficient(
-        (-RELEASE_TARGET) / (sustain_level.as_linear() - RELEASE_TARGET),
+        (-RELEASE_TARGET) / (start_level - RELEASE_TARGET),
         release_time,
         sample_rate,
     )
-- 
2.43.0


From e2903fae6e938a64f93f210230a3d858cbcbd9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 16/32] fix: a sampler start is not lost when every voice is
 still fading out

---
 src/effects/sampler/sampler_processor.rs | 25 ++++++++++++++++--------
 src/effects/sampler/sampler_voice.rs     |  7 +++++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index c9ac864..9931198 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -245,15 +245,24 @@ impl SamplerDspProcess {
 
         self.stop();
 
-        if let Some((index, free_voice)) = self
+        let index = self.next_voice_index();
+        self.voices[index].start_from_position(sample_position);
+        self.active_voice = Some(index);
+    }
+
+    fn next_voice_index(&self) -> usize {
+        // All voices are stopping when a new one is needed: when none has
+        // finished, take over the one that is closest to the end of its fade
+        let index = self
             .voices
-            .iter_mut()
-            .enumerate()
-            .find(|(_, voice)| voice.is_stopped())
-        {
-            free_voice.start_from_position(sample_position);
-            self.active_voice = Some(index);
-        }
+            .iter()
+            .position(|voice| voice.is_stopped())
+            .or_else(|| {
+                (0..self.voices.len())
+                    .max_by_key(|index| self.voices[*index].get_fade_out_position())
+            });
+
+        index.unwrap_or(0)
     }
 
     fn get_active_voice(&self) -> Option<&Voice> {
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index 8ffa0db..d6769f1 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -41,6 +41,13 @@ impl Voice {
         self.position
     }
 
+    pub fn get_fade_out_position(&self) -> Option<usize> {
+        match self.phase {
+            Phase::FadingOut(fade_position) => Some(fade_position),
+            _ => None,
+        }
+    }
+
     pub fn stop(&mut self) {
         match self.phase {
             Phase::Stopped => (),
-- 
2.43.0


From cb971960362eb02d9a068843deecec0f3b91df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 17/32] fix: a sampler plays on to the end after its loop is
 cancelled and follows changed loop points

---
 src/effects/sampler/sampler_processor.rs | 84 ++++++++----------------
 1 file changed, 29 insertions(+), 55 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 9931198..9a64da8 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -120,47 +120,12 @@ impl SamplerDspProcess {
         Self::new_wth_fade(sample_rate, buffer, event_receiver, Fade::bypass())
     }
 
-    fn next_loop_position(&self) -> Timestamp {
-        let (loop_start, loop_end) = match self.loop_points {
-            Some(loop_points) => loop_points,
-            None => {
-                return Timestamp::from_samples(self.buffer.frame_count() as f64, self.sample_rate)
-            }
-        };
-
-        let first_loop_length = loop_end - self.start_position_in_sample;
-        let subsequent_loop_length = loop_end - loop_start;
-
-        let sample_position = first_loop_length.as_samples(self.sample_rate)
-            + subsequent_loop_length.as_samples(self.sample_rate) * self.completed_loops as f64;
-
-        Timestamp::from_samples(sample_position, self.sample_rate)
-    }
-
-    fn get_render_interval(&self, samples_remaining: usize) -> Timestamp {
-        let end_of_frame = self
-            .position
-            .incremented_by_samples(samples_remaining, self.sample_rate);
-
-        let end_of_sample = self.next_loop_position();
-
-        let end_point = if end_of_frame < end_of_sample {
-            end_of_frame
-        } else {
-            end_of_sample
-        };
-
-        end_point - self.position
-    }
+    fn samples_until_loop_end(&self) -> Option<usize> {
+        let (_, loop_end) = self.loop_points?;
 
-    fn finish_sample(&mut self) {
-        if let Some((loop_start, _)) = self.loop_points {
-            self.loop_back(loop_start);
-        }
-    }
+        let remaining = loop_end - self.start_position_in_sample - self.position;
 
-    fn is_looping(&self) -> bool {
-        self.loop_points.is_some()
+        Some(remaining.as_samples(self.sample_rate).round().max(0.0) as usize)
     }
 
     fn process_sample(&mut self, output_buffer: &mut dyn AudioBuffer) {
@@ -169,19 +134,16 @@ impl SamplerDspProcess {
         while frame_position < output_buffer.frame_count() {
             let samples_remaining = output_buffer.frame_count() - frame_position;
 
-            let render_interval = self.get_render_interval(samples_remaining);
-            let render_interval = render_interval.as_samples(self.sample_rate).round() as usize;
-
-            let render_frame_count = std::cmp::min(render_interval, samples_remaining);
-
-            if render_frame_count == 0 && self.is_looping() {
-                self.finish_sample();
-                continue;
-            }
-
-            if render_frame_count == 0 && !self.is_looping() {
-                break;
-            }
+            let render_frame_count = match self.samples_until_loop_end() {
+                Some(0) => {
+                    self.loop_back();
+                    continue;
+                }
+                Some(samples_until_loop_end) => {
+                    std::cmp::min(samples_until_loop_end, samples_remaining)
+                }
+                None => samples_remaining,
+            };
 
             self.process_voices(&mut MutableBorrowedAudioBuffer::slice_frames(
                 output_buffer,
@@ -284,9 +246,21 @@ impl SamplerDspProcess {
         self.start_position_in_sample = from_position;
     }
 
-    fn loop_back(&mut self, from_position: Timestamp) {
-        self.completed_loops += 1;
-        self.assign_voice(from_position);
+    fn loop_back(&mut self) {
+        if let Some((loop_start, loop_end)) = self.loop_points {
+            // The fraction of a sample left over is carried into the next loop
+            let left_over = self.start_position_in_sample + self.position - loop_end;
+
+            self.position = if left_over.as_samples(self.sample_rate) < 1.0 {
+                left_over
+            } else {
+                Timestamp::zero()
+            };
+
+            self.start_position_in_sample = loop_start;
+            self.completed_loops += 1;
+            self.assign_voice(loop_start);
+        }
     }
 
     fn stop(&mut self) {
-- 
2.43.0


From 37969822869f43f8c14440a358b6061961f448e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 18/32] fix: a stopped sampler does not start again at the end
 of its loop

---
 src/effects/sampler/sampler_processor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 9a64da8..b281d56 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -121,6 +121,8 @@ impl SamplerDspProcess {
     }
 
     fn samples_until_loop_end(&self) -> Option<usize> {
+        self.active_voice?;
+
         let (_, loop_end) = self.loop_points?;
 
         let remaining = loop_end - self.start_position_in_sample - self.position;
-- 
2.43.0


From 96a69e5326e34cf7b972a5d1aac7bf775565b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 19/32] fix: a sampler loop without any length does not hang
 the audio thread

---
 src/effects/sampler/sampler_processor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index b281d56..19ea5ac 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -186,7 +186,13 @@ impl SamplerDspProcess {
     }
 
     fn set_loop_points(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
-        self.loop_points = Some((loop_start, loop_end));
+        let loop_length = loop_end - loop_start;
+
+        self.loop_points = if loop_length.as_samples(self.sample_rate) >= 1.0 {
+            Some((loop_start, loop_end))
+        } else {
+            None
+        };
     }
 
     fn clear_loop_points(&mut self) {
-- 
2.43.0


From a68760cacfecd9f94ffdecc31f82459fd7c2c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 20/32] fix: the shelf gain parameter of a biquad can be
 accessed

---
 src/effects/biquad/biquad_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_node.rs b/src/effects/biquad/biquad_node.rs
index f51dc96..1d6ee90 100644
--- a/src/effects/biquad/biquad_node.rs
+++ b/src/effects/biquad/biquad_node.rs
@@ -88,7 +88,7 @@ impl Biquad {
 
     /// Get the shelf gain parameter
     pub fn shelf_gain(&mut self) -> &mut AudioParameter {
-        self.get_parameter_mut("shelf_gain")
+        self.get_parameter_mut("shelf-gain")
     }
 
     /// Get the gain parameter
-- 
2.43.0


From da22cd1c77a9151d66403bd05b53116afa9f9b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 21/32] fix: a borrowed slice of channels does not swap its
 channel and frame counts

---
 src/buffer/borrowed_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/borrowed_audio_buffer.rs b/src/buffer/borrowed_audio_buffer.rs
index 05b512d..d0a8e87 100644
--- a/src/buffer/borrowed_audio_buffer.rs
+++ b/src/buffer/borrowed_audio_buffer.rs
@@ -33,7 +33,7 @@ impl<'a> BorrowedAudioBuffer<'a> {
         let frame_count = buffer.frame_count();
         Self::slice(
             buffer,
-            SampleRange::new(channel_offset, 0, frame_count, channel_count),
+            SampleRange::new(channel_offset, 0, channel_count, frame_count),
         )
     }
 
-- 
2.43.0


From 67dcdd86e3fb1c5c10a71e341f00b19f16215914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 22/32] fix: creating a buffer of several channels from a slice
 does not panic

---
 src/buffer/owned_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/owned_audio_buffer.rs b/src/buffer/owned_audio_buffer.rs
index 8c3bbd0..7362a78 100644
--- a/src/buffer/owned_audio_buffer.rs
+++ b/src/buffer/owned_audio_buffer.rs
@@ -29,7 +29,7 @@ impl OwnedAudioBuffer {
     ///
     /// The audio from `data` represents a single channel and will be copied to all channels
     pub fn from_slice(data: &[f32], channel_count: usize, sample_rate: usize) -> Self {
-        let mut buffer = Self::new(data.len(), 1, sample_rate);
+        let mut buffer = Self::new(data.len(), channel_count, sample_rate);
 
         for channel in 0..channel_count {
             buffer.fill_from_slice(data, SampleLocation::channel(channel));
-- 
2.43.0


From 07f3aa624c06a78ee8f55e29cb69b17c03caa7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 23/32] fix: the compressor knee starts half a knee below the
 threshold

---
 src/effects/compressor/compressor_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/compressor/compressor_processor.rs b/src/effects/compressor/compressor_processor.rs
index 544e300..b2f9208 100644
--- a/src/effects/compressor/compressor_processor.rs
+++ b/src/effects/compressor/compressor_processor.rs
@@ -80,7 +80,7 @@ impl CompressorProcessor {
         let envelope_db = envelope.as_db() as f32;
         let half_knee = 0.5 * knee;
 
-        let output = if envelope_db < threshold + half_knee {
+        let output = if envelope_db < threshold - half_knee {
             envelope_db
         } else if envelope_db > threshold + half_knee {
             threshold + (envelope_db - threshold) / ratio
-- 
2.43.0


From feaaab380cc97bd2a9e16c191fb4c85ad2215c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 24/32] fix: interleaved audio keeps its own channel count as
 its stride

---
 src/buffer/audio_buffer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 0c94163..dac2274 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -18,9 +18,8 @@ pub trait AudioBuffer {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
         let frame_count = frame_count.min(self.frame_count());
-        let channel_count = channel_count.min(self.channel_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channel_count.min(self.channel_count()) {
             let channel_data = self.get_channel_data_mut(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
@@ -43,10 +42,9 @@ pub trait AudioBuffer {
     ) {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
-        let channel_count = channel_count.min(self.channel_count());
         let frame_count = frame_count.min(self.frame_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channel_count.min(self.channel_count()) {
             let channel_data = self.get_channel_data(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
-- 
2.43.0


From 59e8f99fb63d7a7f62d410da18db9065cfc5c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 25/32] fix: the compressor does not divide by a knee of zero
 exactly at the threshold

---
 src/effects/compressor/compressor_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/compressor/compressor_processor.rs b/src/effects/compressor/compressor_processor.rs
index b2f9208..7a21c0c 100644
--- a/src/effects/compressor/compressor_processor.rs
+++ b/src/effects/compressor/compressor_processor.rs
@@ -80,7 +80,7 @@ impl CompressorProcessor {
         let envelope_db = envelope.as_db() as f32;
         let half_knee = 0.5 * knee;
 
-        let output = if envelope_db < threshold - half_knee {
+        let output = if envelope_db <= threshold - half_knee {
             envelope_db
         } else if envelope_db > threshold + half_knee {
             threshold + (envelope_db - threshold) / ratio
-- 
2.43.0


From 19a41ff5c5bb1cdc8bbf4607817039a6da5b5da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 26/32] fix: a soft saturator with a threshold of unity does
 not produce NaN

---
 src/effects/waveshaper/waveshaper_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/waveshaper/waveshaper_node.rs b/src/effects/waveshaper/waveshaper_node.rs
index d88f561..64d5de8 100644
--- a/src/effects/waveshaper/waveshaper_node.rs
+++ b/src/effects/waveshaper/waveshaper_node.rs
@@ -43,7 +43,7 @@ impl Waveshaper {
         assert!(threshold <= 1.0);
 
         let shaper = move |input: f32| {
-            if input < threshold {
+            if input <= threshold {
                 input
             } else {
                 threshold
-- 
2.43.0


From 945200c0d27ccdba54ffc739744ea280e3a55592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:19 +0000
Subject: [PATCH 27/32] fix: biquad filters stay stable when the frequency is
 above the Nyquist frequency

---
 src/effects/biquad/biquad_coefficients.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_coefficients.rs b/src/effects/biquad/biquad_coefficients.rs
index 32cef0c..f92d40f 100644
--- a/src/effects/biquad/biquad_coefficients.rs
+++ b/src/effects/biquad/biquad_coefficients.rs
@@ -185,8 +185,13 @@ impl BiquadCoefficients {
     }
 }
 
+// The filters are only stable below the Nyquist frequency
+const MAXIMUM_NORMALISED_FREQUENCY: f64 = 0.49;
+
 fn omega(center_frequency: f64, sample_rate: f64) -> f64 {
-    2.0 * PI * center_frequency / sample_rate
+    let normalised_frequency = (center_frequency / sample_rate).min(MAXIMUM_NORMALISED_FREQUENCY);
+
+    2.0 * PI * normalised_frequency
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9dcf157cea7672fdcb289a30bd6656252b96541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:41 +0000
Subject: [PATCH 28/32] fix: a recorder dropped while recording does not free
 its buffer on the audio thread

---
 src/effects/recorder/recorder_processor.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index 801c6ab..eef9e35 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -54,9 +54,16 @@ impl RecorderProcessor {
 
         std::mem::swap(&mut next_buffer, &mut self.current_buffer);
 
-        let _ = self
+        // If the node has already been dropped, the buffer is kept rather than
+        // freed here, on the audio thread
+        if let Err(error) = self
             .notification_transmitter
-            .send(RecorderNotification::Data(next_buffer, samples_used));
+            .send(RecorderNotification::Data(next_buffer, samples_used))
+        {
+            if let RecorderNotification::Data(buffer, _) = error.0 {
+                self.return_buffer(buffer);
+            }
+        }
     }
 
     fn process(&mut self, input_buffer: &dyn AudioBuffer, start_frame: usize, frame_count: usize) {
-- 
2.43.0


From 3e0f9a0878fb5f3807ee8f55206de132be5797ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:16 +0000
Subject: [PATCH 29/32] fix: a graph of more than a thousand nodes does not
 panic the audio thread

---
 src/realtime/dsp_graph.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 179b662..d948991 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -14,11 +14,13 @@ pub struct DspGraph {
     garbage_collection_tx: GarbaseCollectionSender,
     graph_needs_sort: bool,
     buffer_pools: BufferPools,
+    buffer_count: usize,
     maximum_channel_count: usize,
     maximum_frame_count: usize,
+    sample_rate: usize,
 }
 
-static MAXIMUM_BUFFER_COUNT: usize = 1024;
+static INITIAL_BUFFER_COUNT: usize = 1024;
 static MAXIMUM_GRAPH_NODE_COUNT: usize = 512;
 static MAXIMUM_GRAPH_EDGE_COUNT: usize = 512;
 
@@ -40,15 +42,17 @@ impl DspGraph {
             garbage_collection_tx,
             buffer_pools: BufferPools {
                 free: BufferPool::new(
-                    MAXIMUM_BUFFER_COUNT,
+                    INITIAL_BUFFER_COUNT,
                     maximum_frame_count,
                     maximum_channel_count,
                     sample_rate,
                 ),
-                assigned: AssignedBufferPool::with_capacity(MAXIMUM_BUFFER_COUNT),
+                assigned: AssignedBufferPool::with_capacity(INITIAL_BUFFER_COUNT),
             },
+            buffer_count: INITIAL_BUFFER_COUNT,
             maximum_channel_count,
             maximum_frame_count,
+            sample_rate,
         }
     }
 
@@ -108,9 +112,26 @@ impl DspGraph {
     pub fn add_dsp(&mut self, dsp: Box<Dsp>) {
         let id = dsp.get_id();
         self.graph.add_node_with_id(id, dsp);
+        self.ensure_enough_buffers();
         self.mark_graph_needs_sort();
     }
 
+    /// While processing, every node holds a buffer for its output. The system input and
+    /// the input of the node being processed need one each as well.
+    fn ensure_enough_buffers(&mut self) {
+        let required_count = self.graph.node_count() + 2;
+
+        while self.buffer_count < required_count {
+            self.buffer_pools.free.add(OwnedAudioBuffer::new(
+                self.maximum_frame_count,
+                self.maximum_channel_count,
+                self.sample_rate,
+            ));
+
+            self.buffer_count += 1;
+        }
+    }
+
     fn mark_graph_needs_sort(&mut self) {
         self.graph_needs_sort = true;
     }
-- 
2.43.0


From e4856084ab54f87ca30c7988ca6715a53aeef758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:16 +0000
Subject: [PATCH 30/32] fix: the garbage collector does not stop when standard
 output is closed

---
 src/realtime/garbage_collector.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/realtime/garbage_collector.rs b/src/realtime/garbage_collector.rs
index f72fcd6..d3bb2cb 100644
--- a/src/realtime/garbage_collector.rs
+++ b/src/realtime/garbage_collector.rs
@@ -1,4 +1,4 @@
-use std::{thread, time};
+use std::{io::Write, thread, time};
 
 use crossbeam::channel::TryRecvError;
 
@@ -24,7 +24,12 @@ pub fn run_garbage_collector(receive_channel: GarbaseCollectionReceiver) {
 fn handle_garbage_collection_event(command: GarbageCollectionCommand) {
     match command {
         GarbageCollectionCommand::DisposeDsp(dsp) => {
-            println!("Destroying DSP with ID: {:?}", dsp.get_id())
+            // The message must not end this thread when nobody reads standard output.
+            let _ = writeln!(
+                std::io::stdout(),
+                "Destroying DSP with ID: {:?}",
+                dsp.get_id()
+            );
         }
     }
 }
-- 
2.43.0


From b3da9237febc5c073bc4dd6a779c1d434e1e8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:59 +0000
Subject: [PATCH 31/32] fix: a sampler loop does not drift by rounding its
 position at every block

---
 src/effects/sampler/sampler_processor.rs | 27 ++++++++++++------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 19ea5ac..0b5ada5 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -26,7 +26,10 @@ pub struct SamplerDspProcess {
 
     loop_points: Option<(Timestamp, Timestamp)>,
 
-    position: Timestamp,
+    /// The number of samples since `start_position_in_sample`
+    ///
+    /// This isn't a `Timestamp`, as rounding at every block would add up
+    position: f64,
     start_position_in_sample: Timestamp,
     completed_loops: usize,
 }
@@ -104,7 +107,7 @@ impl SamplerDspProcess {
                 sample_rate,
             ),
             loop_points: None,
-            position: Timestamp::zero(),
+            position: 0.0,
             start_position_in_sample: Timestamp::zero(),
             completed_loops: 0,
             sample_rate,
@@ -125,9 +128,10 @@ impl SamplerDspProcess {
 
         let (_, loop_end) = self.loop_points?;
 
-        let remaining = loop_end - self.start_position_in_sample - self.position;
+        let length = loop_end - self.start_position_in_sample;
+        let remaining = length.as_samples(self.sample_rate) - self.position;
 
-        Some(remaining.as_samples(self.sample_rate).round().max(0.0) as usize)
+        Some(remaining.round().max(0.0) as usize)
     }
 
     fn process_sample(&mut self, output_buffer: &mut dyn AudioBuffer) {
@@ -155,9 +159,7 @@ impl SamplerDspProcess {
 
             frame_position += render_frame_count;
 
-            self.position = self
-                .position
-                .incremented_by_samples(render_frame_count, self.sample_rate);
+            self.position += render_frame_count as f64;
         }
     }
 
@@ -250,20 +252,17 @@ impl SamplerDspProcess {
     fn start(&mut self, from_position: Timestamp, delay: Timestamp) {
         self.assign_voice(from_position + delay);
         self.completed_loops = 0;
-        self.position = delay;
+        self.position = delay.as_samples(self.sample_rate);
         self.start_position_in_sample = from_position;
     }
 
     fn loop_back(&mut self) {
         if let Some((loop_start, loop_end)) = self.loop_points {
             // The fraction of a sample left over is carried into the next loop
-            let left_over = self.start_position_in_sample + self.position - loop_end;
+            let length = loop_end - self.start_position_in_sample;
+            let left_over = self.position - length.as_samples(self.sample_rate);
 
-            self.position = if left_over.as_samples(self.sample_rate) < 1.0 {
-                left_over
-            } else {
-                Timestamp::zero()
-            };
+            self.position = if left_over < 1.0 { left_over } else { 0.0 };
 
             self.start_position_in_sample = loop_start;
             self.completed_loops += 1;
-- 
2.43.0


From 4418ad9e07d844a7d0f00c49871180167b0b489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:02 +0000
Subject: [PATCH 32/32] fix: converting long audio to another sample rate keeps
 its place

---
 src/buffer/audio_buffer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index dac2274..a344ef7 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -308,7 +308,7 @@ pub trait AudioBuffer {
         destination_location: SampleLocation,
         channel_count: usize,
     ) {
-        let ratio = audio_buffer.sample_rate() as f32 / self.sample_rate() as f32;
+        let ratio = audio_buffer.sample_rate() as f64 / self.sample_rate() as f64;
 
         for channel_offset in 0..channel_count {
             let source_data =
@@ -320,7 +320,7 @@ pub trait AudioBuffer {
                 .iter_mut()
                 .enumerate()
                 .for_each(|(index, sample)| {
-                    let source_index = index as f32 * ratio;
+                    let source_index = index as f64 * ratio;
 
                     let sample_before = (source_index.floor() as usize).min(source_data.len() - 1);
                     let sample_after = (source_index.ceil() as usize).min(source_data.len() - 1);
@@ -332,7 +332,7 @@ pub trait AudioBuffer {
                     let sample_before = source_data[sample_before];
                     let sample_after = source_data[sample_after];
 
-                    let sample_after_amount = source_index - source_index.floor();
+                    let sample_after_amount = (source_index - source_index.floor()) as f32;
                     *sample = (1.0_f32 - sample_after_amount) * sample_before
                         + sample_after_amount * sample_after;
                 });
-- 
2.43.0

