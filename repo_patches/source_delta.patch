From 5e6ccf3f3646c469366d192591cc7ffe3219edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 01/29] fix: BorrowedAudioBuffer::slice_channels swapped the
 channel and frame counts of its window

---
 src/buffer/borrowed_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/borrowed_audio_buffer.rs b/src/buffer/borrowed_audio_buffer.rs
index 05b512d..d0a8e87 100644
--- a/src/buffer/borrowed_audio_buffer.rs
+++ b/src/buffer/borrowed_audio_buffer.rs
@@ -33,7 +33,7 @@ impl<'a> BorrowedAudioBuffer<'a> {
         let frame_count = buffer.frame_count();
         Self::slice(
             buffer,
-            SampleRange::new(channel_offset, 0, frame_count, channel_count),
+            SampleRange::new(channel_offset, 0, channel_count, frame_count),
         )
     }
 
-- 
2.43.0


From d7504d4e7b6f6c6df6b937e60f448dc87e6da85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 02/29] fix: OwnedAudioBuffer::from_slice allocated one channel
 whatever the channel count

---
 src/buffer/owned_audio_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/owned_audio_buffer.rs b/src/buffer/owned_audio_buffer.rs
index 8c3bbd0..7362a78 100644
--- a/src/buffer/owned_audio_buffer.rs
+++ b/src/buffer/owned_audio_buffer.rs
@@ -29,7 +29,7 @@ impl OwnedAudioBuffer {
     ///
     /// The audio from `data` represents a single channel and will be copied to all channels
     pub fn from_slice(data: &[f32], channel_count: usize, sample_rate: usize) -> Self {
-        let mut buffer = Self::new(data.len(), 1, sample_rate);
+        let mut buffer = Self::new(data.len(), channel_count, sample_rate);
 
         for channel in 0..channel_count {
             buffer.fill_from_slice(data, SampleLocation::channel(channel));
-- 
2.43.0


From 2fe608ec145027d66f1470c456ae3c979d31931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 03/29] fix: interleaved copies used the clamped channel count
 as the stride of the interleaved data

---
 src/buffer/audio_buffer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 0c94163..987953b 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -18,9 +18,9 @@ pub trait AudioBuffer {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
         let frame_count = frame_count.min(self.frame_count());
-        let channel_count = channel_count.min(self.channel_count());
+        let channels_to_copy = channel_count.min(self.channel_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channels_to_copy {
             let channel_data = self.get_channel_data_mut(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
@@ -43,10 +43,10 @@ pub trait AudioBuffer {
     ) {
         debug_assert!(interleaved_data.len() >= channel_count * frame_count);
 
-        let channel_count = channel_count.min(self.channel_count());
+        let channels_to_copy = channel_count.min(self.channel_count());
         let frame_count = frame_count.min(self.frame_count());
 
-        for channel in 0..channel_count {
+        for channel in 0..channels_to_copy {
             let channel_data = self.get_channel_data(SampleLocation::channel(channel));
 
             (0..frame_count).for_each(|frame| {
-- 
2.43.0


From 4ffd2ae36ad46abe073beb77c5e1ef6f0b5a0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 04/29] fix: AudioBuffer::apply_gain_value left all but the
 first channel untouched for a gain of zero

---
 src/buffer/audio_buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer/audio_buffer.rs b/src/buffer/audio_buffer.rs
index 987953b..24d7f4f 100644
--- a/src/buffer/audio_buffer.rs
+++ b/src/buffer/audio_buffer.rs
@@ -273,11 +273,11 @@ pub trait AudioBuffer {
 
             if relative_eq!(gain, 0.0) {
                 channel_data.fill(0.0);
-                return;
+                continue;
             }
 
             if relative_eq!(gain, 1.0) {
-                return;
+                continue;
             }
 
             multiply_by_value(channel_data, gain);
-- 
2.43.0


From 4a47ffbe7ee3900df731eb0cb2f8f2dec1e92a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 05/29] fix: a buffer window or channel copy could reach audio
 outside of its window or channel

---
 src/buffer/borrowed_audio_buffer.rs         | 2 ++
 src/buffer/mutable_borrowed_audio_buffer.rs | 8 ++++++++
 src/buffer/owned_audio_buffer.rs            | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/src/buffer/borrowed_audio_buffer.rs b/src/buffer/borrowed_audio_buffer.rs
index d0a8e87..251f6f6 100644
--- a/src/buffer/borrowed_audio_buffer.rs
+++ b/src/buffer/borrowed_audio_buffer.rs
@@ -70,6 +70,8 @@ impl<'a> AudioBuffer for BorrowedAudioBuffer<'a> {
     }
 
     fn get_channel_data(&self, sample_location: SampleLocation) -> &[f32] {
+        assert!(sample_location.channel < self.range.channel_count);
+
         let data = self.buffer.get_channel_data(
             sample_location
                 .offset_frames(self.range.frame)
diff --git a/src/buffer/mutable_borrowed_audio_buffer.rs b/src/buffer/mutable_borrowed_audio_buffer.rs
index 30d10ea..51365e2 100644
--- a/src/buffer/mutable_borrowed_audio_buffer.rs
+++ b/src/buffer/mutable_borrowed_audio_buffer.rs
@@ -67,6 +67,8 @@ impl<'a> AudioBuffer for MutableBorrowedAudioBuffer<'a> {
     }
 
     fn get_channel_data(&self, sample_location: SampleLocation) -> &[f32] {
+        assert!(sample_location.channel < self.range.channel_count);
+
         let data = self.buffer.get_channel_data(
             sample_location
                 .offset_frames(self.range.frame)
@@ -77,6 +79,8 @@ impl<'a> AudioBuffer for MutableBorrowedAudioBuffer<'a> {
     }
 
     fn get_channel_data_mut(&mut self, sample_location: SampleLocation) -> &mut [f32] {
+        assert!(sample_location.channel < self.range.channel_count);
+
         let data = self.buffer.get_channel_data_mut(
             sample_location
                 .offset_frames(self.range.frame)
@@ -87,6 +91,10 @@ impl<'a> AudioBuffer for MutableBorrowedAudioBuffer<'a> {
     }
 
     fn duplicate_channel(&mut self, source: SampleLocation, to_channel: usize, frame_count: usize) {
+        assert!(source.channel < self.range.channel_count);
+        assert!(to_channel < self.range.channel_count);
+        assert!(source.frame + frame_count <= self.range.frame_count);
+
         self.buffer.duplicate_channel(
             source
                 .offset_frames(self.range.frame)
diff --git a/src/buffer/owned_audio_buffer.rs b/src/buffer/owned_audio_buffer.rs
index 7362a78..8e41d8b 100644
--- a/src/buffer/owned_audio_buffer.rs
+++ b/src/buffer/owned_audio_buffer.rs
@@ -203,6 +203,8 @@ impl AudioBuffer for OwnedAudioBuffer {
     }
 
     fn duplicate_channel(&mut self, source: SampleLocation, to_channel: usize, frame_count: usize) {
+        assert!(source.frame + frame_count <= self.frame_count);
+
         let source_range = self.get_sample_location_range(&source);
         let destination_range = self.get_sample_location_range(&source.with_channel(to_channel));
         self.data.copy_within(
-- 
2.43.0


From e872e09bcc277231273c41dc45a5bb074c05e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 06/29] fix: Biquad::shelf_gain looked up a parameter name that
 is never created

---
 src/effects/biquad/biquad_node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/biquad/biquad_node.rs b/src/effects/biquad/biquad_node.rs
index f51dc96..1d6ee90 100644
--- a/src/effects/biquad/biquad_node.rs
+++ b/src/effects/biquad/biquad_node.rs
@@ -88,7 +88,7 @@ impl Biquad {
 
     /// Get the shelf gain parameter
     pub fn shelf_gain(&mut self) -> &mut AudioParameter {
-        self.get_parameter_mut("shelf_gain")
+        self.get_parameter_mut("shelf-gain")
     }
 
     /// Get the gain parameter
-- 
2.43.0


From 0ffc444afcd459fc54900338ff8d72011984efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 07/29] fix: cancelling the changes that end after a time
 cancelled those that end before it

---
 src/parameter/realtime_parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index cf94d35..9b0b686 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -173,7 +173,7 @@ impl RealtimeAudioParameter {
 
     pub fn cancel_scheduled_changes_ending_after(&mut self, time: &Timestamp) {
         self.parameter_changes
-            .retain(|change| change.end_time >= *time);
+            .retain(|change| change.end_time <= *time);
     }
 
     pub fn cancel_scheduled_changes(&mut self) {
-- 
2.43.0


From 66dee3c2368ba77550d2e8838000a7070489af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 08/29] fix: dropping a node that is still connected panicked
 on the audio thread

---
 src/realtime/graph.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index c4e5413..ab2aac0 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -90,6 +90,8 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
     }
 
     pub fn remove_node(&mut self, id: Id) -> Option<NodeData> {
+        self.remove_edges_of_node(id);
+
         if let Some((_, node)) = self.nodes.remove_entry(&id) {
             assert!(node.incoming.is_none());
             assert!(node.outgoing.is_none());
@@ -99,6 +101,17 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         None
     }
 
+    fn remove_edges_of_node(&mut self, id: Id) {
+        while let Some(edge) = self
+            .edges
+            .values()
+            .find(|edge| edge.from_node_id == id || edge.to_node_id == id)
+        {
+            let (from_node_id, to_node_id) = (edge.from_node_id, edge.to_node_id);
+            self.remove_edge(from_node_id, to_node_id);
+        }
+    }
+
     pub fn get_node_mut(&mut self, id: Id) -> Option<&mut NodeData> {
         self.nodes.get_mut(&id).map(|node| &mut node.node_data)
     }
-- 
2.43.0


From 652cab5c438a9ec5ae69db3cc48a544f7d4fecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 09/29] fix: connecting the same two nodes twice was taken for
 a cycle and panicked on the audio thread

---
 src/realtime/graph.rs            |  5 -----
 src/realtime/topological_sort.rs | 10 ++++------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index ab2aac0..76d4707 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -121,11 +121,6 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         self.nodes.insert(id, Node::new(node_data));
     }
 
-    pub fn is_connected_to(&self, from_node_id: Id, to_node_id: Id) -> bool {
-        NodeIterator::new(from_node_id, Direction::Outgoing, &self.nodes, &self.edges)
-            .any(|id| id == to_node_id)
-    }
-
     pub fn node_iter(&self, node_id: Id, direction: Direction) -> NodeIterator<NodeData, EdgeData> {
         NodeIterator::new(node_id, direction, &self.nodes, &self.edges)
     }
diff --git a/src/realtime/topological_sort.rs b/src/realtime/topological_sort.rs
index b334b5e..e399247 100644
--- a/src/realtime/topological_sort.rs
+++ b/src/realtime/topological_sort.rs
@@ -35,12 +35,10 @@ impl TopologicalSort {
             self.order.push(next_node_id);
             self.dependency_count.remove(&next_node_id);
 
-            for node_id in graph.all_node_ids() {
-                if graph.is_connected_to(next_node_id, *node_id) {
-                    let previous_value = self.dependency_count.get_mut(node_id).unwrap();
-                    assert!(*previous_value > 0);
-                    *previous_value -= 1;
-                }
+            for node_id in graph.node_iter(next_node_id, Direction::Outgoing) {
+                let previous_value = self.dependency_count.get_mut(&node_id).unwrap();
+                assert!(*previous_value > 0);
+                *previous_value -= 1;
             }
         }
 
-- 
2.43.0


From 1c70a0d3bba3432df6fd805e6ebc5ab122c2c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 10/29] fix: disconnecting two nodes removed only one of the
 connections between them

---
 src/realtime/dsp_graph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 5995716..59ae932 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -157,8 +157,11 @@ impl DspGraph {
     }
 
     pub fn remove_connection(&mut self, connection: Connection) {
-        self.graph
-            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id);
+        while self
+            .graph
+            .remove_edge(connection.source.dsp_id, connection.destination.dsp_id)
+            .is_some()
+        {}
 
         self.mark_graph_needs_sort();
     }
-- 
2.43.0


From 2eb3687fe73e5acdc45b347867e5126f221e82cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 11/29] fix: the envelope skipped the frames of a block that
 follow its first notification

---
 src/effects/envelope/envelope_processor.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index cc86591..0b54c53 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -44,9 +44,9 @@ impl DspProcessor for EnvelopeProcessor {
         let mut position = 0;
         let channel_count = context.input_buffer.channel_count();
 
-        while position < channel_count {
+        while position < context.input_buffer.frame_count() {
             let frame_count = std::cmp::min(
-                context.input_buffer.frame_count(),
+                context.input_buffer.frame_count() - position,
                 self.notification.samples_until_next_notification(),
             );
 
@@ -71,10 +71,7 @@ impl DspProcessor for EnvelopeProcessor {
                 }
             }
 
-            if self
-                .notification
-                .advance(context.input_buffer.frame_count())
-            {
+            if self.notification.advance(frame_count) {
                 self.send_notifications(channel_count);
             }
 
-- 
2.43.0


From e9f759b5a84abb274dfc81d5eb3e71043732e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 12/29] fix: the envelope blocked the audio thread while its
 notification queue was full

---
 src/effects/envelope/envelope_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/envelope/envelope_processor.rs b/src/effects/envelope/envelope_processor.rs
index 0b54c53..15875a0 100644
--- a/src/effects/envelope/envelope_processor.rs
+++ b/src/effects/envelope/envelope_processor.rs
@@ -32,7 +32,7 @@ impl EnvelopeProcessor {
         for channel in 0..channel_count {
             let peak = self.peaks.get(channel).expect("Invalid channel index");
             let notification = EnvelopeNotification::new(channel, *peak);
-            let _ = self.transmitter.send(notification);
+            let _ = self.transmitter.try_send(notification);
         }
 
         self.peaks.fill_with(|| 0.0_f32);
-- 
2.43.0


From 80a9801966c6585fbce936fca9887a9f149d9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 13/29] fix: the recorder blocked or panicked on the audio
 thread when the control thread fell behind

---
 src/effects/recorder/recorder_processor.rs | 49 +++++++++++++++-------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index e18be07..d307705 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -12,6 +12,7 @@ pub struct RecorderProcessor {
     current_buffer: OwnedAudioBuffer,
     current_position_in_buffer: usize,
     recording: bool,
+    reported_recording: bool,
 }
 
 const MAX_PENDING_EVENTS: usize = 16;
@@ -37,23 +38,46 @@ impl RecorderProcessor {
             current_buffer: OwnedAudioBuffer::new(BUFFER_SIZE, channel_count, sample_rate),
             current_position_in_buffer: 0,
             recording: false,
+            reported_recording: false,
         }
     }
 
     fn next_buffer(&mut self) {
-        let mut next_buffer = self
-            .buffer_pool
-            .remove()
-            .expect("Ran out of record buffers");
-
         let samples_used = self.current_position_in_buffer;
         self.current_position_in_buffer = 0;
 
+        // If the control thread has fallen too far behind, the buffer is reused and its audio is lost
+        let mut next_buffer = match self.buffer_pool.remove() {
+            Some(buffer) => buffer,
+            None => return,
+        };
+
         std::mem::swap(&mut next_buffer, &mut self.current_buffer);
 
-        let _ = self
+        if let Err(error) = self
             .notification_transmitter
-            .send(RecorderNotification::Data(next_buffer, samples_used));
+            .try_send(RecorderNotification::Data(next_buffer, samples_used))
+        {
+            if let RecorderNotification::Data(buffer, _) = error.into_inner() {
+                self.buffer_pool.add(buffer);
+            }
+        }
+    }
+
+    fn report_recording_state(&mut self) {
+        if self.recording == self.reported_recording {
+            return;
+        }
+
+        let notification = if self.recording {
+            RecorderNotification::Start
+        } else {
+            RecorderNotification::Stop
+        };
+
+        if self.notification_transmitter.try_send(notification).is_ok() {
+            self.reported_recording = self.recording;
+        }
     }
 
     fn process(&mut self, input_buffer: &dyn AudioBuffer, start_frame: usize, frame_count: usize) {
@@ -100,10 +124,7 @@ impl RecorderProcessor {
         }
 
         self.recording = true;
-
-        let _ = self
-            .notification_transmitter
-            .send(RecorderNotification::Start);
+        self.report_recording_state();
     }
 
     fn stop(&mut self) {
@@ -113,10 +134,7 @@ impl RecorderProcessor {
 
         self.next_buffer();
         self.recording = false;
-
-        let _ = self
-            .notification_transmitter
-            .send(RecorderNotification::Stop);
+        self.report_recording_state();
     }
 
     fn return_buffer(&mut self, buffer: OwnedAudioBuffer) {
@@ -135,6 +153,7 @@ impl RecorderProcessor {
 impl DspProcessor for RecorderProcessor {
     fn process_audio(&mut self, context: &mut ProcessContext) {
         self.event_processor.receive_events();
+        self.report_recording_state();
 
         let mut current_time = *context.start_time;
         let mut position = 0;
-- 
2.43.0


From 6dcedb156550b690e5921a2b7c60572a40f27dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 14/29] fix: removing many nodes at once blocked the audio
 thread on the garbage collector

---
 src/realtime/dsp_graph.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 59ae932..8b23ce9 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -12,6 +12,7 @@ pub struct DspGraph {
     input_endpoint: Option<Endpoint>,
     output_endpoint: Option<Endpoint>,
     garbage_collection_tx: GarbaseCollectionSender,
+    pending_garbage: Vec<GarbageCollectionCommand>,
     graph_needs_sort: bool,
     buffer_pools: BufferPools,
     maximum_channel_count: usize,
@@ -40,6 +41,7 @@ impl DspGraph {
             input_endpoint: None,
             output_endpoint: None,
             garbage_collection_tx,
+            pending_garbage: Vec::with_capacity(MAXIMUM_GRAPH_NODE_COUNT),
             buffer_pools: BufferPools {
                 free: BufferPool::new(
                     MAXIMUM_BUFFER_COUNT,
@@ -66,6 +68,7 @@ impl DspGraph {
             std::cmp::min(output_buffer.channel_count(), self.maximum_channel_count);
         let frame_count = std::cmp::min(output_buffer.frame_count(), self.maximum_frame_count);
 
+        self.send_garbage();
         self.sort_graph();
 
         if let Some(input_endpoint) = self.input_endpoint {
@@ -126,14 +129,23 @@ impl DspGraph {
 
     pub fn remove_dsp(&mut self, id: Id) {
         if let Some(dsp) = self.graph.remove_node(id) {
-            let _ = self
-                .garbage_collection_tx
-                .send(GarbageCollectionCommand::DisposeDsp(dsp));
+            self.pending_garbage
+                .push(GarbageCollectionCommand::DisposeDsp(dsp));
+            self.send_garbage();
         }
 
         self.mark_graph_needs_sort();
     }
 
+    fn send_garbage(&mut self) {
+        while let Some(command) = self.pending_garbage.pop() {
+            if let Err(error) = self.garbage_collection_tx.try_send(command) {
+                self.pending_garbage.push(error.into_inner());
+                break;
+            }
+        }
+    }
+
     pub fn request_parameter_change(&mut self, change_request: ParameterChangeRequest) {
         if let Some(dsp) = self.graph.get_node_mut(change_request.dsp_id) {
             dsp.request_parameter_change(change_request);
-- 
2.43.0


From 7fc7f36f5f8934018343d259cf00a6d3b7f3f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 15/29] fix: a node heard channels that were not connected, or
 lost the system input to a connection

---
 src/realtime/dsp_graph.rs | 18 ++++++++++++------
 src/realtime/graph.rs     |  4 ++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/realtime/dsp_graph.rs b/src/realtime/dsp_graph.rs
index 8b23ce9..71726f9 100644
--- a/src/realtime/dsp_graph.rs
+++ b/src/realtime/dsp_graph.rs
@@ -304,8 +304,6 @@ fn copy_output_from_dependencies(
     destination_buffer: &mut dyn AudioBuffer,
     frame_count: usize,
 ) {
-    let mut mix_behaviour = MixBehaviour::Overwrite;
-
     for edge_id in graph.edge_iterator(dsp_id, Direction::Incoming) {
         let edge = graph.get_edge(edge_id).expect("Edge not found");
 
@@ -319,10 +317,8 @@ fn copy_output_from_dependencies(
             edge.edge_data.destination_input_channel,
             edge.edge_data.channel_count,
             frame_count,
-            mix_behaviour,
+            MixBehaviour::Mix,
         );
-
-        mix_behaviour = MixBehaviour::Mix;
     }
 }
 
@@ -385,7 +381,17 @@ fn prepare_single_input_node(
 
     let edge = graph.get_edge(edge_id).unwrap();
 
-    if edge.edge_data.destination_input_channel == 0 && edge.edge_data.source_output_channel == 0 {
+    let has_system_input = buffer_pools
+        .assigned
+        .has(&Endpoint::new(dsp_id, EndpointType::Input));
+
+    let connects_all_inputs = edge.edge_data.destination_input_channel == 0
+        && edge.edge_data.source_output_channel == 0
+        && graph
+            .get_node(dsp_id)
+            .is_some_and(|dsp| dsp.input_count() <= edge.edge_data.channel_count);
+
+    if connects_all_inputs && !has_system_input {
         let input_endpoint = Endpoint::new(edge.from_node_id, EndpointType::Output);
 
         return (
diff --git a/src/realtime/graph.rs b/src/realtime/graph.rs
index 76d4707..66f7aaa 100644
--- a/src/realtime/graph.rs
+++ b/src/realtime/graph.rs
@@ -112,6 +112,10 @@ impl<NodeData, EdgeData> Graph<NodeData, EdgeData> {
         }
     }
 
+    pub fn get_node(&self, id: Id) -> Option<&NodeData> {
+        self.nodes.get(&id).map(|node| &node.node_data)
+    }
+
     pub fn get_node_mut(&mut self, id: Id) -> Option<&mut NodeData> {
         self.nodes.get_mut(&id).map(|node| &mut node.node_data)
     }
-- 
2.43.0


From 9ccc541afc81dc7986f08443dd25f8781a187046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 16/29] fix: a parameter ramp overshot its target when it did
 not end on a sample

---
 src/parameter/realtime_parameter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index 9b0b686..f2dd67a 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -153,7 +153,14 @@ impl RealtimeAudioParameter {
             return self.current_change.value;
         }
 
-        (value * self.coefficient) + self.increment
+        let target = self.current_change.value;
+        let next_value = (value * self.coefficient) + self.increment;
+
+        if value <= target {
+            next_value.min(target)
+        } else {
+            next_value.max(target)
+        }
     }
 
     pub fn get_values(&self, frame_count: usize) -> &[f32] {
-- 
2.43.0


From 4d860243ea1eb57d6c4eaf51ce1379c5a1cd872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 17/29] fix: queueing many changes or events allocated the
 scratch space of a stable sort on the audio thread

---
 src/effects/utility/event_processor.rs | 2 +-
 src/parameter/realtime_parameter.rs    | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/effects/utility/event_processor.rs b/src/effects/utility/event_processor.rs
index 2b722a4..969800e 100644
--- a/src/effects/utility/event_processor.rs
+++ b/src/effects/utility/event_processor.rs
@@ -45,7 +45,7 @@ where
 
         if sort_required {
             self.pending_events
-                .sort_by(|a, b| match a.get_time().cmp(&b.get_time()) {
+                .sort_unstable_by(|a, b| match a.get_time().cmp(&b.get_time()) {
                     std::cmp::Ordering::Equal => a.sequence_number().cmp(&b.sequence_number()),
                     comparison => comparison,
                 });
diff --git a/src/parameter/realtime_parameter.rs b/src/parameter/realtime_parameter.rs
index f2dd67a..5abe0f0 100644
--- a/src/parameter/realtime_parameter.rs
+++ b/src/parameter/realtime_parameter.rs
@@ -172,10 +172,11 @@ impl RealtimeAudioParameter {
     }
 
     pub fn add_parameter_change(&mut self, parameter_change: ParameterChange) {
-        self.parameter_changes.push(parameter_change);
+        let index = self
+            .parameter_changes
+            .partition_point(|change| change.end_time <= parameter_change.end_time);
 
-        self.parameter_changes
-            .sort_by(|a, b| a.end_time.partial_cmp(&b.end_time).unwrap());
+        self.parameter_changes.insert(index, parameter_change);
     }
 
     pub fn cancel_scheduled_changes_ending_after(&mut self, time: &Timestamp) {
-- 
2.43.0


From 1469ad3923f028bffd38f74abc916af613a9c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 18/29] fix: the compressor did not apply its soft knee

---
 src/effects/compressor/compressor_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/compressor/compressor_processor.rs b/src/effects/compressor/compressor_processor.rs
index 544e300..7a21c0c 100644
--- a/src/effects/compressor/compressor_processor.rs
+++ b/src/effects/compressor/compressor_processor.rs
@@ -80,7 +80,7 @@ impl CompressorProcessor {
         let envelope_db = envelope.as_db() as f32;
         let half_knee = 0.5 * knee;
 
-        let output = if envelope_db < threshold + half_knee {
+        let output = if envelope_db <= threshold - half_knee {
             envelope_db
         } else if envelope_db > threshold + half_knee {
             threshold + (envelope_db - threshold) / ratio
-- 
2.43.0


From fd2ee7dfbbe73a0138e9c0998af6ca94e7169bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 19/29] fix: the oscillator read past its wavetable when its
 phase reached exactly one

---
 src/effects/oscillator/oscillator_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/oscillator/oscillator_processor.rs b/src/effects/oscillator/oscillator_processor.rs
index 5a9a029..20d8071 100644
--- a/src/effects/oscillator/oscillator_processor.rs
+++ b/src/effects/oscillator/oscillator_processor.rs
@@ -17,7 +17,7 @@ impl OscillatorProcessor {
 
     fn increment_phase(&mut self, frequency: f32, sample_rate: usize) {
         self.phase += (frequency as f64) / (sample_rate as f64);
-        while self.phase > 1.0 {
+        while self.phase >= 1.0 {
             self.phase -= 1.0;
         }
     }
-- 
2.43.0


From 495760404b49d53ae79903867a94becc790bf056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 20/29] fix: the oscillator interpolated towards zero instead
 of the start at the end of its wavetable

---
 src/effects/oscillator/oscillator_processor.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/effects/oscillator/oscillator_processor.rs b/src/effects/oscillator/oscillator_processor.rs
index 20d8071..3f036af 100644
--- a/src/effects/oscillator/oscillator_processor.rs
+++ b/src/effects/oscillator/oscillator_processor.rs
@@ -29,11 +29,7 @@ impl OscillatorProcessor {
         let offset_after = offset.ceil() as usize;
 
         let value_before = self.wavetable[offset_before];
-        let value_after = if offset_after < self.wavetable.len() {
-            self.wavetable[offset_after]
-        } else {
-            0.0
-        };
+        let value_after = self.wavetable[offset_after % self.wavetable.len()];
 
         let weighting = offset - offset.floor();
         interpolate(value_before, value_after, weighting)
-- 
2.43.0


From 4da010d254843c4ee74cebb9c98d68bee5a6b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 21/29] fix: a sampler loop shorter than one sample never
 returned from the audio callback

---
 src/effects/sampler/sampler_processor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index c9ac864..4c875c8 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -222,7 +222,13 @@ impl SamplerDspProcess {
     }
 
     fn set_loop_points(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
-        self.loop_points = Some((loop_start, loop_end));
+        let loop_length = (loop_end - loop_start).as_samples(self.sample_rate);
+
+        self.loop_points = if loop_length >= 1.0 {
+            Some((loop_start, loop_end))
+        } else {
+            None
+        };
     }
 
     fn clear_loop_points(&mut self) {
-- 
2.43.0


From 0d800790088c1bfd1fdd90d1d02cb9a8eb3c71ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 22/29] fix: panning a mono input panicked on the audio thread

---
 src/effects/pan/pan_processor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/effects/pan/pan_processor.rs b/src/effects/pan/pan_processor.rs
index be29cdf..410f737 100644
--- a/src/effects/pan/pan_processor.rs
+++ b/src/effects/pan/pan_processor.rs
@@ -10,13 +10,15 @@ impl PanProcessor {
 
 impl DspProcessor for PanProcessor {
     fn process_audio(&mut self, context: &mut crate::ProcessContext) {
-        debug_assert_eq!(context.input_buffer.channel_count(), 2);
+        debug_assert!(matches!(context.input_buffer.channel_count(), 1 | 2));
         debug_assert_eq!(context.output_buffer.channel_count(), 2);
 
         let pan_values = context
             .parameters
             .get_parameter_values("pan", context.output_buffer.frame_count());
 
+        let r_input_channel = context.input_buffer.channel_count() - 1;
+
         (0..context.output_buffer.frame_count()).for_each(|frame| {
             let pan = pan_values[frame];
 
@@ -27,7 +29,9 @@ impl DspProcessor for PanProcessor {
             let r_location = SampleLocation::new(1, frame);
 
             let l_input = context.input_buffer.get_sample(l_location);
-            let r_input = context.input_buffer.get_sample(r_location);
+            let r_input = context
+                .input_buffer
+                .get_sample(r_location.with_channel(r_input_channel));
 
             let l_value = l_input * l_gain;
             let r_value = r_input * r_gain;
-- 
2.43.0


From 2fd5e25ef6ef89b67fa579bd1093492be0edce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 23/29] fix: a convolution whose impulse and input differ in
 channels panicked on the audio thread

---
 src/effects/convolution/convolution_processor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/effects/convolution/convolution_processor.rs b/src/effects/convolution/convolution_processor.rs
index 7069983..999bb4e 100644
--- a/src/effects/convolution/convolution_processor.rs
+++ b/src/effects/convolution/convolution_processor.rs
@@ -38,8 +38,9 @@ impl ConvolutionProcessor {
     }
 
     fn consume_input(&mut self, input: &dyn AudioBuffer) {
-        debug_assert_eq!(input.channel_count(), self.complex_input.len());
-        for channel in 0..input.channel_count() {
+        let channel_count = std::cmp::min(input.channel_count(), self.complex_input.len());
+
+        for channel in 0..channel_count {
             let complex_input = self
                 .complex_input
                 .get_mut(channel)
@@ -90,11 +91,12 @@ impl ConvolutionProcessor {
     }
 
     fn copy_dry_to_output(input: &dyn AudioBuffer, output: &mut dyn AudioBuffer, dry: &[f32]) {
-        debug_assert_eq!(input.channel_count(), output.channel_count());
         debug_assert_eq!(input.frame_count(), output.frame_count());
         debug_assert_eq!(input.frame_count(), dry.len());
 
-        for channel in 0..output.channel_count() {
+        let channel_count = std::cmp::min(input.channel_count(), output.channel_count());
+
+        for channel in 0..channel_count {
             let output = output.get_channel_data_mut(SampleLocation::channel(channel));
             let input = input.get_channel_data(SampleLocation::channel(channel));
             mix_into_with_gains(input, output, dry);
@@ -133,7 +135,6 @@ impl ConvolutionProcessor {
         wet: &[f32],
         dry: &[f32],
     ) {
-        debug_assert_eq!(input.channel_count(), output.channel_count());
         debug_assert_eq!(input.frame_count(), output.frame_count());
         debug_assert_eq!(input.frame_count(), wet.len());
         debug_assert_eq!(input.frame_count(), dry.len());
-- 
2.43.0


From 32f142722173a96c40af073166c25f7d62a66cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 24/29] fix: the convolution allocated on the audio thread in
 every block

---
 src/effects/convolution/convolution_processor.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/effects/convolution/convolution_processor.rs b/src/effects/convolution/convolution_processor.rs
index 999bb4e..63a85f5 100644
--- a/src/effects/convolution/convolution_processor.rs
+++ b/src/effects/convolution/convolution_processor.rs
@@ -12,6 +12,7 @@ pub struct ConvolutionProcessor {
     input_fft: ComplexAudioBuffer,
     complex_input: ComplexAudioBuffer,
     complex_output: ComplexAudioBuffer,
+    fft_scratch: Vec<Complex<f32>>,
     output_scale: f32,
     maximum_frame_count: usize,
 }
@@ -24,14 +25,20 @@ impl ConvolutionProcessor {
 
         let mut planner = FftPlanner::new();
         let fft = planner.plan_fft_forward(convolution_length);
+        let ifft = planner.plan_fft_inverse(convolution_length);
+        let scratch_length = std::cmp::max(
+            fft.get_inplace_scratch_len(),
+            ifft.get_inplace_scratch_len(),
+        );
 
         Self {
             fft: fft.clone(),
-            ifft: planner.plan_fft_inverse(convolution_length),
+            ifft,
             impulse_fft: fft_impulse(impulse, fft.as_ref(), convolution_length),
             input_fft: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_input: create_complex_audio_buffer(output_channel_count, convolution_length),
             complex_output: create_complex_audio_buffer(output_channel_count, convolution_length),
+            fft_scratch: vec![Complex::zero(); scratch_length],
             output_scale: 1.0 / convolution_length as f32,
             maximum_frame_count,
         }
@@ -66,7 +73,8 @@ impl ConvolutionProcessor {
             izip!(self.complex_input.iter(), self.input_fft.iter_mut())
         {
             input_fft.copy_from_slice(complex_input);
-            self.fft.process(input_fft);
+            self.fft
+                .process_with_scratch(input_fft, &mut self.fft_scratch);
         }
     }
 
@@ -86,7 +94,8 @@ impl ConvolutionProcessor {
 
     fn ifft_output(&mut self) {
         for output_fft in self.complex_output.iter_mut() {
-            self.ifft.process(output_fft);
+            self.ifft
+                .process_with_scratch(output_fft, &mut self.fft_scratch);
         }
     }
 
-- 
2.43.0


From 5f9483c27538c315bcd64a3ddd6c402648b8abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 25/29] fix: the ADSR, mixer and recorder nodes blocked their
 caller once 32 events were waiting

---
 src/effects/adsr/adsr_node.rs         | 4 +---
 src/effects/mixer/mixer_node.rs       | 4 +---
 src/effects/recorder/recorder_node.rs | 3 +--
 3 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/effects/adsr/adsr_node.rs b/src/effects/adsr/adsr_node.rs
index 08de08e..29256bb 100644
--- a/src/effects/adsr/adsr_node.rs
+++ b/src/effects/adsr/adsr_node.rs
@@ -12,14 +12,12 @@ pub struct Adsr {
     event_transmitter: Channel::Sender<AdsrEvent>,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Adsr {
     /// Create a new ADSR node
     pub fn new(context: &dyn Context, channel_count: usize, sample_rate: usize) -> Self {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(AdsrProcessor::new(
             event_receiver,
diff --git a/src/effects/mixer/mixer_node.rs b/src/effects/mixer/mixer_node.rs
index 4a92d08..d21700c 100644
--- a/src/effects/mixer/mixer_node.rs
+++ b/src/effects/mixer/mixer_node.rs
@@ -23,8 +23,6 @@ pub struct Mixer {
     event_transmitter: EventTransmitter,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
-
 impl Mixer {
     /// Create a new mixer node for a given input to output channel combination
     pub fn new(context: &dyn Context, input_count: usize, output_count: usize) -> Self {
@@ -32,7 +30,7 @@ impl Mixer {
 
         let gain_matrix = MixerMatrix::new(input_count, output_count);
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
 
         let processor = Box::new(MixerProcessor::new(event_receiver));
 
diff --git a/src/effects/recorder/recorder_node.rs b/src/effects/recorder/recorder_node.rs
index 674afca..1b25da5 100644
--- a/src/effects/recorder/recorder_node.rs
+++ b/src/effects/recorder/recorder_node.rs
@@ -19,7 +19,6 @@ pub struct Recorder {
     is_recording: bool,
 }
 
-static EVENT_CHANNEL_CAPACITY: usize = 32;
 static NOTIFICATION_CHANNEL_CAPACITY: usize = 32;
 
 impl Recorder {
@@ -31,7 +30,7 @@ impl Recorder {
     ) -> Rc<RefCell<Self>> {
         let id = Id::generate();
 
-        let (event_transmitter, event_receiver) = Channel::bounded(EVENT_CHANNEL_CAPACITY);
+        let (event_transmitter, event_receiver) = Channel::unbounded();
         let (notification_transmitter, notification_receiver) =
             Channel::bounded(NOTIFICATION_CHANNEL_CAPACITY);
 
-- 
2.43.0


From f0572af2a3c8890745443e6a9c1be059d11c98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:04 +0000
Subject: [PATCH 26/29] fix: a stopped sampler stays stopped when it has a loop

---
 src/effects/sampler/sampler_processor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 4c875c8..c7a3e87 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -283,7 +283,10 @@ impl SamplerDspProcess {
 
     fn loop_back(&mut self, from_position: Timestamp) {
         self.completed_loops += 1;
-        self.assign_voice(from_position);
+
+        if self.active_voice.is_some() {
+            self.assign_voice(from_position);
+        }
     }
 
     fn stop(&mut self) {
-- 
2.43.0


From 276c0a06354161d799a2d89369baa98c061e3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:08 +0000
Subject: [PATCH 27/29] fix: sampler keeps its place in the sample when its
 loop changes or is cancelled

---
 src/effects/sampler/sampler_processor.rs | 46 +++++++++++-------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index c7a3e87..96713ff 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -27,7 +27,6 @@ pub struct SamplerDspProcess {
     loop_points: Option<(Timestamp, Timestamp)>,
 
     position: Timestamp,
-    start_position_in_sample: Timestamp,
     completed_loops: usize,
 }
 
@@ -105,7 +104,6 @@ impl SamplerDspProcess {
             ),
             loop_points: None,
             position: Timestamp::zero(),
-            start_position_in_sample: Timestamp::zero(),
             completed_loops: 0,
             sample_rate,
         }
@@ -120,21 +118,11 @@ impl SamplerDspProcess {
         Self::new_wth_fade(sample_rate, buffer, event_receiver, Fade::bypass())
     }
 
-    fn next_loop_position(&self) -> Timestamp {
-        let (loop_start, loop_end) = match self.loop_points {
-            Some(loop_points) => loop_points,
-            None => {
-                return Timestamp::from_samples(self.buffer.frame_count() as f64, self.sample_rate)
-            }
-        };
-
-        let first_loop_length = loop_end - self.start_position_in_sample;
-        let subsequent_loop_length = loop_end - loop_start;
-
-        let sample_position = first_loop_length.as_samples(self.sample_rate)
-            + subsequent_loop_length.as_samples(self.sample_rate) * self.completed_loops as f64;
-
-        Timestamp::from_samples(sample_position, self.sample_rate)
+    fn end_position(&self) -> Timestamp {
+        match self.loop_points {
+            Some((_, loop_end)) => loop_end,
+            None => Timestamp::from_samples(self.buffer.frame_count() as f64, self.sample_rate),
+        }
     }
 
     fn get_render_interval(&self, samples_remaining: usize) -> Timestamp {
@@ -142,7 +130,7 @@ impl SamplerDspProcess {
             .position
             .incremented_by_samples(samples_remaining, self.sample_rate);
 
-        let end_of_sample = self.next_loop_position();
+        let end_of_sample = self.end_position();
 
         let end_point = if end_of_frame < end_of_sample {
             end_of_frame
@@ -154,8 +142,8 @@ impl SamplerDspProcess {
     }
 
     fn finish_sample(&mut self) {
-        if let Some((loop_start, _)) = self.loop_points {
-            self.loop_back(loop_start);
+        if let Some((loop_start, loop_end)) = self.loop_points {
+            self.loop_back(loop_start, loop_end);
         }
     }
 
@@ -275,17 +263,25 @@ impl SamplerDspProcess {
     }
 
     fn start(&mut self, from_position: Timestamp, delay: Timestamp) {
-        self.assign_voice(from_position + delay);
+        self.position = from_position + delay;
+        self.assign_voice(self.position);
         self.completed_loops = 0;
-        self.position = delay;
-        self.start_position_in_sample = from_position;
     }
 
-    fn loop_back(&mut self, from_position: Timestamp) {
+    fn loop_back(&mut self, loop_start: Timestamp, loop_end: Timestamp) {
         self.completed_loops += 1;
 
+        let overshoot = self.position - loop_end;
+
+        // Keep the fraction of a sample, so that loops don't drift
+        self.position = if overshoot.as_samples(self.sample_rate) < 1.0 {
+            loop_start + overshoot
+        } else {
+            loop_start
+        };
+
         if self.active_voice.is_some() {
-            self.assign_voice(from_position);
+            self.assign_voice(loop_start);
         }
     }
 
-- 
2.43.0


From e58a2bf62c2fcda37632d89d13df16e3f98424cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:37 +0000
Subject: [PATCH 28/29] fix: sampler starts although every voice is still
 fading out

---
 src/effects/sampler/sampler_processor.rs | 7 ++++---
 src/effects/sampler/sampler_voice.rs     | 9 +++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/effects/sampler/sampler_processor.rs b/src/effects/sampler/sampler_processor.rs
index 96713ff..edf7f44 100644
--- a/src/effects/sampler/sampler_processor.rs
+++ b/src/effects/sampler/sampler_processor.rs
@@ -239,13 +239,14 @@ impl SamplerDspProcess {
 
         self.stop();
 
-        if let Some((index, free_voice)) = self
+        // Every voice is stopped or fading out now, so there's always one to use
+        if let Some((index, voice)) = self
             .voices
             .iter_mut()
             .enumerate()
-            .find(|(_, voice)| voice.is_stopped())
+            .max_by_key(|(_, voice)| voice.fade_out_progress())
         {
-            free_voice.start_from_position(sample_position);
+            voice.start_from_position(sample_position);
             self.active_voice = Some(index);
         }
     }
diff --git a/src/effects/sampler/sampler_voice.rs b/src/effects/sampler/sampler_voice.rs
index 8ffa0db..50ff966 100644
--- a/src/effects/sampler/sampler_voice.rs
+++ b/src/effects/sampler/sampler_voice.rs
@@ -50,6 +50,15 @@ impl Voice {
         }
     }
 
+    /// How far the voice has faded out, the most when it has stopped
+    pub fn fade_out_progress(&self) -> usize {
+        match self.phase {
+            Phase::Stopped => usize::MAX,
+            Phase::FadingOut(fade_position) => fade_position,
+            Phase::FadingIn(_) | Phase::Playing => 0,
+        }
+    }
+
     pub fn render(&mut self, output: &mut dyn AudioBuffer, sample: &dyn AudioBuffer, fade: &Fade) {
         if self.is_stopped() {
             return;
-- 
2.43.0


From 9ecf49e3560e9a0e47ac51898d8ce5afd7772296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:49 +0000
Subject: [PATCH 29/29] fix: the recorder miscounted the frames of a segment
 that does not begin its block

---
 src/effects/recorder/recorder_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/recorder/recorder_processor.rs b/src/effects/recorder/recorder_processor.rs
index d307705..14fb0db 100644
--- a/src/effects/recorder/recorder_processor.rs
+++ b/src/effects/recorder/recorder_processor.rs
@@ -94,7 +94,7 @@ impl RecorderProcessor {
 
         while position < (start_frame + frame_count) {
             let frames_this_time = std::cmp::min(
-                frame_count - position,
+                start_frame + frame_count - position,
                 self.current_buffer.frame_count() - self.current_position_in_buffer,
             );
 
-- 
2.43.0

