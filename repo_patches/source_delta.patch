From fe6848220a74bf006d58dd03adc2fb548f54929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 01/36] fix: count each occurrence of a repeated sequence once

When a sequence equal to an existing edge was followed by more commands, its
location was recorded twice, so the optimised song repeated it too often and
dropped the commands that followed.
---
 src/nspc/seqtree.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 7539ff6..598b941 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -424,20 +424,13 @@ impl SeqTree {
                         found_edge = true;
                         let shared_seq_len = seq_len + shared_prefix.len();
                         if shared_prefix.len() == edge.commands.len() {
-                            add_location(
-                                &mut edge.target.as_mut().unwrap().locations,
+                            // also adds the location to the target, even when no commands are left
+                            edge.target.as_mut().unwrap().add_commands(
+                                &commands[shared_prefix.len()..],
                                 track_idx,
                                 seq_start,
                                 shared_seq_len,
                             );
-                            if shared_prefix.len() < commands.len() {
-                                edge.target.as_mut().unwrap().add_commands(
-                                    &commands[shared_prefix.len()..],
-                                    track_idx,
-                                    seq_start,
-                                    shared_seq_len,
-                                );
-                            }
                         } else {
                             let mut new_target = SeqTree {
                                 edges: Vec::new(),
-- 
2.43.0


From db597b60178dd9a005bbe44e32cb7609169dd975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 02/36] fix: follow duration and velocity through a CallLoop

The writer assumed they were still what they had been before the call, so a
note after the loop took on the duration or velocity of the last note in it.
---
 src/nspc/command.rs |  7 +++++++
 src/nspc/mod.rs     |  2 +-
 src/nspc/track.rs   | 15 ++++++++++++---
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 3aecdb0..e20e719 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -360,6 +360,13 @@ impl ParameterizedCommand {
         Ok((duration_out, velocity_sustain_out))
     }
 
+    pub fn call_loop_target(&self) -> Option<usize> {
+        match self.command {
+            Command::CallLoop(target, _) => Some(target),
+            _ => None,
+        }
+    }
+
     pub fn call_loop_eligible(&self) -> bool {
         match self.command {
             Command::CallLoop(..) => false,
diff --git a/src/nspc/mod.rs b/src/nspc/mod.rs
index 63c0ad5..24febf6 100644
--- a/src/nspc/mod.rs
+++ b/src/nspc/mod.rs
@@ -198,7 +198,7 @@ impl Song {
             {
                 out.write(&PREAMBLE_OTHER_TRACK)?;
             }
-            track.write(out, call_loops)?;
+            track.write(out, call_loops, &self.tracks)?;
             out.write_u8(0x00)?;
         }
         Ok(())
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 84e9434..ec64bc5 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -273,14 +273,23 @@ impl Track {
         &self,
         out: &mut Cursor<Vec<u8>>,
         call_loops: &mut Vec<CallLoopRef>,
-    ) -> Result<(), Error> {
+        tracks: &[Track],
+    ) -> Result<(u8, Option<u8>), Error> {
         let mut duration = 0xff;
         let mut velocity = None;
         for cmd in &self.commands {
-            let (duration_out, velocity_out) = cmd.write(out, duration, velocity, call_loops)?;
+            let (mut duration_out, mut velocity_out) =
+                cmd.write(out, duration, velocity, call_loops)?;
+            if let Some(track) = cmd.call_loop_target().and_then(|target| tracks.get(target)) {
+                // the called track leaves its own duration and velocity behind
+                let (loop_duration, loop_velocity) =
+                    track.write(&mut Cursor::new(Vec::new()), &mut Vec::new(), &[])?;
+                duration_out = if loop_duration == 0xff { duration } else { loop_duration };
+                velocity_out = loop_velocity.or(velocity);
+            }
             duration = duration_out;
             velocity = velocity_out;
         }
-        Ok(())
+        Ok((duration, velocity))
     }
 }
-- 
2.43.0


From b4bbeb89ce263d07ea0ecd85b999f7dcb5f3cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 03/36] fix: split a sequence repeated more than 255 times over
 several CallLoops

The repeat count is one byte; counting further overflowed it.
---
 src/nspc/seqtree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index 598b941..fa5be4e 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -556,7 +556,7 @@ impl SeqTree {
                 && seq
                     .locations
                     .iter()
-                    .fold(0, |acc, &loc| acc + loc.repeat_count)
+                    .fold(0, |acc, &loc| acc + loc.repeat_count as usize)
                     > 1
         })
         .max_by_key(score)
@@ -573,6 +573,7 @@ impl SeqTree {
             } else if consolidated.last().map_or(false, |loc: &Location| {
                 loc.track_idx == location.track_idx
                     && loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx
+                    && loc.repeat_count < u8::max_value()
             }) {
                 consolidated.last_mut().unwrap().repeat_count += 1;
             } else {
-- 
2.43.0


From 536f48ed577f6c1c9c6af6c3eaf9609de203d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 04/36] fix: keep track positions in whole driver time units

Positions were kept in ticks, truncated whenever a unit is not a whole number
of ticks, so voices drifted late and apart; a note shorter than what rounding
had already used up came out with a duration of zero or underflowed; and rests
or notes longer than 255 * 127 units wrapped around.
---
 src/nspc/command.rs | 13 +++++++
 src/nspc/track.rs   | 92 ++++++++++++++++++++++++++++-----------------
 2 files changed, 70 insertions(+), 35 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index e20e719..4d04629 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -360,6 +360,19 @@ impl ParameterizedCommand {
         Ok((duration_out, velocity_sustain_out))
     }
 
+    /// Makes a note one unit longer if its duration allows.
+    pub fn lengthen(&mut self) -> bool {
+        match (&self.command, self.duration) {
+            (&Command::Note(..), Some(duration)) | (&Command::Tie, Some(duration))
+                if duration < 0x7f =>
+            {
+                self.duration = Some(duration + 1);
+                true
+            }
+            _ => false,
+        }
+    }
+
     pub fn call_loop_target(&self) -> Option<usize> {
         match self.command {
             Command::CallLoop(target, _) => Some(target),
diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index ec64bc5..f42c1d9 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -14,53 +14,63 @@ pub struct Track {
 #[derive(Debug)]
 struct Duration {
     length: u8,
-    quantized_ticks: u32,
-    overflow_count: u8,
+    overflow_count: u32,
 }
 
+// longest track that could fit in audio RAM even as nothing but rests
+const MAX_UNITS: u64 = 0x7f * 0x10000;
+
 impl Track {
-    fn get_duration(ticks: u32, ticks_per_beat: u16, ceil: bool) -> Duration {
-        let length_beats = (ticks as f32) / (ticks_per_beat as f32);
-        let length = length_beats * 24.0;
-        let quantized_length = if ceil {
-            length.ceil() as u32
+    /// Converts MIDI ticks to driver time units (1/24 beat).
+    fn to_units(ticks: u32, ticks_per_beat: u16, ceil: bool) -> u32 {
+        let ticks_per_beat = ticks_per_beat.max(1) as u64;
+        let ticks = ticks as u64 * 24;
+        let units = if ceil {
+            (ticks + ticks_per_beat - 1) / ticks_per_beat
         } else {
-            length.floor() as u32
+            ticks / ticks_per_beat
         };
-        let quantized_ticks = quantized_length * (ticks_per_beat as u32) / 24;
-        if quantized_length > 0x7f {
-            let overflow_amount = quantized_length % 0x7f;
-            let overflow_count = quantized_length / 0x7f;
+        units.min(MAX_UNITS + 1) as u32
+    }
+
+    fn get_duration(length: u32) -> Duration {
+        if length > 0x7f {
+            let overflow_amount = length % 0x7f;
+            let overflow_count = length / 0x7f;
             if overflow_amount == 0 {
                 Duration {
                     length: 0x7f,
-                    quantized_ticks,
-                    overflow_count: (overflow_count - 1) as u8,
+                    overflow_count: overflow_count - 1,
                 }
             } else {
                 Duration {
                     length: overflow_amount as u8,
-                    quantized_ticks,
-                    overflow_count: overflow_count as u8,
+                    overflow_count,
                 }
             }
         } else {
             Duration {
-                length: quantized_length as u8,
-                quantized_ticks,
+                length: length as u8,
                 overflow_count: 0,
             }
         }
     }
 
+    /// Whether a gap between two notes is no more than what rounding the end of the first one to
+    /// whole units makes of it.
+    fn is_rounding_gap(note_off: u32, note_on: u32, ticks_per_beat: u16) -> bool {
+        let ticks_per_beat = ticks_per_beat as u64;
+        (note_off as u64 * 24) % ticks_per_beat.max(1) != 0
+            && (note_on - note_off) as u64 * 48 < ticks_per_beat * 3
+    }
+
     fn insert_rest(
         commands: &mut Vec<ParameterizedCommand>,
         last_note_end: u32,
         abs_time: u32,
-        ticks_per_beat: u16,
     ) -> u32 {
         if abs_time > last_note_end {
-            let duration = Track::get_duration(abs_time - last_note_end, ticks_per_beat, false);
+            let duration = Track::get_duration(abs_time - last_note_end);
             for _ in 0..duration.overflow_count {
                 commands.push(ParameterizedCommand::new(
                     Some(0x7f),
@@ -77,7 +87,7 @@ impl Track {
                     Command::Rest,
                 ));
             }
-            last_note_end + duration.quantized_ticks
+            abs_time
         } else {
             last_note_end
         }
@@ -94,8 +104,15 @@ impl Track {
         let mut note_start: Option<u32> = None;
         let mut note_velocity = 0;
         let mut last_note_end = 0u32;
+        let mut last_note_off = 0u32;
         let mut portamento = false;
         let mut port_time = 0u16;
+        let max_time = Track::to_units(max_time, ticks_per_beat, false);
+        ensure!(
+            (max_time as u64) <= MAX_UNITS,
+            "Song is too long: {} time units",
+            max_time
+        );
         for &(ref message, abs_time) in events {
             match *message {
                 Message::MetaEvent {
@@ -120,8 +137,10 @@ impl Track {
                     match *event {
                         MidiEvent::NoteOff { note, .. } => {
                             if let Some(start) = note_start {
-                                let duration =
-                                    Track::get_duration(abs_time - start, ticks_per_beat, true);
+                                // a note takes at least one unit
+                                let end = Track::to_units(abs_time, ticks_per_beat, true)
+                                    .max(start + 1);
+                                let duration = Track::get_duration(end - start);
                                 let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
                                 commands.push(ParameterizedCommand::new(
                                     Some(if duration.overflow_count > 0 {
@@ -149,28 +168,32 @@ impl Track {
                                         Command::Tie,
                                     ));
                                 }
-                                last_note_end = start + duration.quantized_ticks;
+                                last_note_end = end;
+                                last_note_off = abs_time;
                                 note_start = None;
                             }
                         }
                         MidiEvent::NoteOn { velocity, note, .. } => {
-                            last_note_end = Track::insert_rest(
-                                &mut commands,
-                                last_note_end,
-                                abs_time,
-                                ticks_per_beat,
-                            );
+                            let start = Track::to_units(abs_time, ticks_per_beat, false);
+                            if start == last_note_end + 1
+                                && Track::is_rounding_gap(last_note_off, abs_time, ticks_per_beat)
+                                && commands.last_mut().map_or(false, |cmd| cmd.lengthen())
+                            {
+                                last_note_end = start;
+                            }
+                            last_note_end =
+                                Track::insert_rest(&mut commands, last_note_end, start);
                             if portamento && !commands.is_empty() {
                                 let pitch_slide: Option<ParameterizedCommand>;
                                 {
                                     let last_command = commands.last();
                                     pitch_slide = last_command.and_then(|cmd| {
                                         cmd.create_pitch_slide(
-                                            Track::get_duration(
+                                            Track::get_duration(Track::to_units(
                                                 port_time as u32,
                                                 ticks_per_beat,
                                                 true,
-                                            )
+                                            ))
                                                 .length,
                                             note + 0x68,
                                         )
@@ -218,8 +241,7 @@ impl Track {
                             last_note_end = Track::insert_rest(
                                 &mut commands,
                                 last_note_end,
-                                abs_time,
-                                ticks_per_beat,
+                                Track::to_units(abs_time, ticks_per_beat, false),
                             );
                             let instrument = if ch == 9 { program } else { INSTRUMENT_MAP[program as usize] };
                             commands.push(ParameterizedCommand::new(
@@ -247,7 +269,7 @@ impl Track {
         let mut commands_with_sustain = Vec::new();
         if !commands.is_empty() {
             if max_time > last_note_end {
-                Track::insert_rest(&mut commands, last_note_end, max_time, ticks_per_beat);
+                Track::insert_rest(&mut commands, last_note_end, max_time);
             }
             let mut skip_next_rest = false;
             for i in 0..commands.len() - 1 {
-- 
2.43.0


From dce747f51505aec9e164e4f73fc20393140d6adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 05/36] fix: don't merge a rest into a note past the longest
 duration

A duration byte above 0x7f reads as a command.
---
 src/nspc/command.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 4d04629..3a4dc87 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -394,7 +394,10 @@ impl ParameterizedCommand {
                 let note_duration = self.duration.unwrap() as u16;
                 let rest_duration = next_command.duration.unwrap() as u16;
                 let total_duration = note_duration + rest_duration;
-                if (note_duration * 8) % total_duration == 0 || note_duration > rest_duration * 16 {
+                if total_duration <= 0x7f
+                    && ((note_duration * 8) % total_duration == 0
+                        || note_duration > rest_duration * 16)
+                {
                     let sustain = ((note_duration * 8) / total_duration) as u8;
                     self.sustain = Some(sustain.min(7));
                     self.duration = Some(total_duration as u8);
-- 
2.43.0


From 682569571e1166a5e888da58081566c8da4e433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 06/36] fix: move notes outside the driver's range by octaves

A note below MIDI 24 or above 95 came out as a duration, tie, rest or command.
---
 src/nspc/track.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index f42c1d9..ea75a70 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -33,6 +33,13 @@ impl Track {
         units.min(MAX_UNITS + 1) as u32
     }
 
+    /// The driver's note value, moved by octaves into its range (0x80 to 0xc7).
+    fn driver_note(note: u8) -> u8 {
+        let octave_note = note % 12;
+        let octave = (note / 12).max(2).min(7);
+        octave * 12 + octave_note + 0x68
+    }
+
     fn get_duration(length: u32) -> Duration {
         if length > 0x7f {
             let overflow_amount = length % 0x7f;
@@ -153,7 +160,7 @@ impl Track {
                                     if push_as_tie {
                                         Command::Tie
                                     } else {
-                                        Command::Note(note + 0x68)
+                                        Command::Note(Track::driver_note(note))
                                     },
                                 ));
                                 for i in 0..duration.overflow_count {
@@ -195,7 +202,7 @@ impl Track {
                                                 true,
                                             ))
                                                 .length,
-                                            note + 0x68,
+                                            Track::driver_note(note),
                                         )
                                     });
                                 }
-- 
2.43.0


From e3252237ba4eda0180f0019057a063294d9a4317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 07/36] fix: give the quietest notes a velocity of their own

A MIDI velocity below 8 came out as 0, which the writer takes to mean no
change, so the note was played as loud as the one before it.
---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index ea75a70..1df6cde 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -155,7 +155,7 @@ impl Track {
                                     } else {
                                         duration.length
                                     }),
-                                    Some(note_velocity / 8),
+                                    Some((note_velocity / 8).max(1)),
                                     Some(7),
                                     if push_as_tie {
                                         Command::Tie
-- 
2.43.0


From e65daba5540f46542deb0743dcf3961a1aec0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 08/36] fix: count the notes sounding on a channel, not note-on
 and note-off events

A re-struck key left a phantom note that kept the channel's voice from being
shared, and a stray note-off underflowed the count.
---
 src/midi/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 509e5b2..b03b219 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -2,7 +2,7 @@ use failure::Error;
 use ghakuf::messages::*;
 use ghakuf::reader::*;
 use itertools::*;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::path::Path;
 use super::nspc::instruments::*;
 
@@ -156,36 +156,36 @@ impl MidiHandler {
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
             let mut intervals = &mut channel.intervals;
             let mut last_interval_end = 0u32;
-            let mut active_voices = 0usize;
+            let mut active_notes = HashSet::new();
             for message in &channel.messages {
                 match *message {
                     (Message::MidiEvent { ref event, .. }, abs_time) => {
                         match *event {
-                            MidiEvent::NoteOff { .. } => {
+                            MidiEvent::NoteOff { note, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: active_notes.len(),
                                     });
                                 }
-                                active_voices -= 1;
+                                active_notes.remove(&note);
                                 last_interval_end = abs_time;
                             }
-                            MidiEvent::NoteOn { velocity, .. } => {
+                            MidiEvent::NoteOn { note, velocity, .. } => {
                                 if abs_time > last_interval_end {
                                     intervals.push(VoiceInterval {
                                         start: last_interval_end,
                                         end: abs_time,
                                         channel: i,
-                                        voices: active_voices,
+                                        voices: active_notes.len(),
                                     });
                                 }
                                 if velocity == 0 {
-                                    active_voices -= 1;
+                                    active_notes.remove(&note);
                                 } else {
-                                    active_voices += 1;
+                                    active_notes.insert(note);
                                 }
                                 last_interval_end = abs_time;
                             }
-- 
2.43.0


From 34504b74785428ed33bb96d0ed48abdd74370e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 09/36] fix: end notes whose note-off is at the tick of their
 note-on

The note-off was handled before the note-on, so the note was left sounding
until the same key was used again, or got lost.
---
 src/midi/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index b03b219..d1d1678 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -220,6 +220,7 @@ impl MidiHandler {
                 println!("extracting events from midi track {}", i);
             }
             let mut abs_time = 0;
+            let mut note_on_times: HashMap<(u8, u8), u32> = HashMap::new();
             for message in &track.messages {
                 match *message {
                     Message::MetaEvent { delta_time, .. } => {
@@ -231,9 +232,23 @@ impl MidiHandler {
                         ref event,
                     } => {
                         abs_time += delta_time;
+                        let mut event_time = abs_time;
+                        match *event {
+                            MidiEvent::NoteOff { ch, note, .. }
+                            | MidiEvent::NoteOn { ch, note, velocity: 0 } => {
+                                // note-offs are sorted first, so a note can't end as it starts
+                                if note_on_times.remove(&(ch, note)) == Some(abs_time) {
+                                    event_time += 1;
+                                }
+                            }
+                            MidiEvent::NoteOn { ch, note, .. } => {
+                                note_on_times.entry((ch, note)).or_insert(abs_time);
+                            }
+                            _ => {}
+                        }
                         self.channels[channel(event)]
                             .messages
-                            .push((message.clone(), abs_time));
+                            .push((message.clone(), event_time));
                     }
                     Message::SysExEvent { delta_time, .. } => {
                         abs_time += delta_time;
-- 
2.43.0


From 99f9867a3248128a90b2cb431465bbc676b98c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 10/36] fix: don't search for base voices for channels without
 notes

Trying every voice for every channel without notes made a song that needs more
than eight voices take exponential time to reject.
---
 src/midi/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index d1d1678..9bec431 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -278,6 +278,15 @@ impl MidiHandler {
         if verbose {
             println!("find base voice for channel {}", channel_idx);
         }
+        if !self.channels[channel_idx]
+            .intervals
+            .iter()
+            .any(|interval| interval.voices > 0)
+        {
+            // no notes, so any voice will do
+            self.channels[channel_idx].base_voice = 0;
+            return self.find_base_voices(channel_idx + 1, active_base_intervals, path, verbose);
+        }
         let mut valid_voices = vec![];
         let mut found_empty = false;
         for i in 0..8 {
-- 
2.43.0


From c08ab4e8f7c365d7e17a12d0fa289f541ed62932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 11/36] fix: give each note its own channel's instrument and
 volume

A voice shared by several channels, or lent to a channel for a chord, kept the
instrument and volume it was last given, and program changes on the percussion
channel were taken for instruments. Compare what a voice was last told with
what the note's channel asks for when a note starts.
---
 src/midi/mod.rs | 120 ++++++++++++++++++++++++++++--------------------
 1 file changed, 69 insertions(+), 51 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 9bec431..0a2d01b 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -7,6 +7,8 @@ use std::path::Path;
 use super::nspc::instruments::*;
 
 const SNARE_NOTE: u8 = 68;
+// as set by Song at the start of each track, and the MIDI default
+const DEFAULT_VOLUME: u8 = 100;
 
 #[derive(Debug, Fail)]
 enum MidiError {
@@ -351,30 +353,38 @@ impl MidiHandler {
         None
     }
 
+    /// Whether any channel's notes sound on a voice.
+    fn is_active(active_notes: &[HashMap<u8, usize>], voice: usize) -> bool {
+        active_notes
+            .iter()
+            .flat_map(|active_note| active_note.values())
+            .any(|&active_voice| active_voice == voice)
+    }
+
     fn channels_to_voices(&mut self, path: &Path, verbose: bool) -> Result<(), Error> {
         let channels = &self.channels;
         let mut last_abs_time: Vec<u32> = Vec::new();
         let mut curr_event_idx: Vec<usize> = Vec::new();
-        let mut last_ctrl_change_per_channel: Vec<Option<Message>> = Vec::new();
-        let mut last_prog_change_per_channel: Vec<Option<Message>> = Vec::new();
+        let mut volume_per_channel: Vec<u8> = Vec::new();
+        let mut program_per_channel: Vec<Option<u8>> = Vec::new();
         let mut last_pitch_bend_per_channel: Vec<Option<Message>> = Vec::new();
-        let mut last_ctrl_change_per_voice: Vec<Option<Message>> = Vec::new();
-        let mut last_prog_change_per_voice: Vec<Option<Message>> = Vec::new();
+        let mut volume_per_voice: Vec<u8> = Vec::new();
+        // channel and program, as programs of the percussion channel are driver instruments
+        let mut program_per_voice: Vec<Option<(bool, u8)>> = Vec::new();
         let mut last_pitch_bend_per_voice: Vec<Option<Message>> = Vec::new();
         let mut last_channel_per_voice: Vec<Option<usize>> = Vec::new();
         let mut active_notes: Vec<HashMap<u8, usize>> = Vec::new();
-        let mut last_percussion_instr = 0;
         for _ in 0..self.channels.len() {
             last_abs_time.push(0);
             curr_event_idx.push(0);
-            last_ctrl_change_per_channel.push(None);
-            last_prog_change_per_channel.push(None);
+            volume_per_channel.push(DEFAULT_VOLUME);
+            program_per_channel.push(None);
             last_pitch_bend_per_channel.push(None);
             active_notes.push(HashMap::new());
         }
         for voice in 0..self.voices.len() {
-            last_ctrl_change_per_voice.push(None);
-            last_prog_change_per_voice.push(None);
+            volume_per_voice.push(DEFAULT_VOLUME);
+            program_per_voice.push(None);
             last_pitch_bend_per_voice.push(None);
             last_channel_per_voice.push(
                 self.channels
@@ -456,11 +466,7 @@ impl MidiHandler {
                         if velocity > 0 {
                             let mut next_voice = None;
                             let base_voice = self.channels[ch].base_voice;
-                            if active_notes
-                                .iter()
-                                .flat_map(|active_note| active_note.values())
-                                .any(|&voice| voice == base_voice)
-                            {
+                            if MidiHandler::is_active(&active_notes, base_voice) {
                                 if verbose {
                                     println!("channel {} base voice occupied at {} - base voices {:?} active notes {:?}",
                                              ch,
@@ -474,10 +480,7 @@ impl MidiHandler {
                                         .iter()
                                         .map(|channel| channel.base_voice)
                                         .any(|voice| voice == possible_voice)
-                                        && !active_notes
-                                            .iter()
-                                            .flat_map(|active_note| active_note.values())
-                                            .any(|&voice| voice == possible_voice)
+                                        && !MidiHandler::is_active(&active_notes, possible_voice)
                                     {
                                         if verbose {
                                             println!("using {}", possible_voice);
@@ -496,31 +499,45 @@ impl MidiHandler {
                             active_notes[ch].insert(note, next_voice);
                             let messages = &mut self.voices[next_voice].messages;
                             if ch != last_channel_per_voice[next_voice].unwrap_or(0xff) {
-                                last_ctrl_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
-                                last_prog_change_per_channel.get(ch).unwrap().as_ref()
-                                    .map(|event| messages.push((event.clone(), abs_time)));
                                 last_pitch_bend_per_channel.get(ch).unwrap().as_ref()
                                     .map(|event| messages.push((event.clone(), abs_time)));
                                 last_channel_per_voice[next_voice] = Some(ch);
                             };
-                            if ch == 9 {
-                                let instr = if note == 38 || note == 40 { SNARE } else { CYMBAL };
-                                if last_percussion_instr != instr {
-                                    let prog_change = (
+                            if volume_per_voice[next_voice] != volume_per_channel[ch] {
+                                volume_per_voice[next_voice] = volume_per_channel[ch];
+                                messages.push((
+                                    Message::MidiEvent {
+                                        delta_time,
+                                        event: MidiEvent::ControlChange {
+                                            ch: ch as u8,
+                                            control: 7,
+                                            data: volume_per_channel[ch],
+                                        },
+                                    },
+                                    abs_time,
+                                ));
+                            }
+                            let program = if ch == 9 {
+                                Some(if note == 38 || note == 40 { SNARE } else { CYMBAL })
+                            } else {
+                                program_per_channel[ch]
+                            };
+                            if let Some(program) = program {
+                                if program_per_voice[next_voice] != Some((ch == 9, program)) {
+                                    program_per_voice[next_voice] = Some((ch == 9, program));
+                                    messages.push((
                                         Message::MidiEvent {
                                             delta_time,
                                             event: MidiEvent::ProgramChange {
                                                 ch: ch as u8,
-                                                program: instr,
-                                            }
+                                                program,
+                                            },
                                         },
-                                        abs_time
-                                    );
-                                    last_prog_change_per_channel[ch] = Some(prog_change.0.clone());
-                                    messages.push(prog_change);
-                                    last_percussion_instr = instr;
+                                        abs_time,
+                                    ));
                                 }
+                            }
+                            if ch == 9 {
                                 messages.push((Message::MidiEvent {
                                     delta_time,
                                     event: MidiEvent::NoteOn {
@@ -541,33 +558,25 @@ impl MidiHandler {
                             None => (),
                         }
                     }
-                    MidiEvent::ControlChange { ch, control, .. } => {
+                    MidiEvent::ControlChange { ch, control: 7, data } => {
                         let ch = ch as usize;
-                        let mut pushed_to_base = false;
+                        // other voices are told when they play a note of this channel
+                        volume_per_channel[ch] = data;
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
-                            if control == 7 {
-                                last_ctrl_change_per_voice[voice] = Some(next_event.0.clone());
-                            }
-                            if voice == self.channels[ch].base_voice {
-                                pushed_to_base = true;
-                            }
+                            volume_per_voice[voice] = data;
                         }
-                        if !pushed_to_base {
-                            self.voices[self.channels[ch].base_voice]
-                                .messages
-                                .push(next_event.clone());
-                        }
-                        if control == 7 {
-                            last_ctrl_change_per_channel[ch] = Some(next_event.0.clone());
+                        let base_voice = self.channels[ch].base_voice;
+                        if !MidiHandler::is_active(&active_notes, base_voice) {
+                            self.voices[base_voice].messages.push(next_event.clone());
+                            volume_per_voice[base_voice] = data;
                         }
                     }
-                    MidiEvent::ProgramChange { ch, .. } => {
+                    MidiEvent::ControlChange { ch, .. } => {
                         let ch = ch as usize;
                         let mut pushed_to_base = false;
                         for &voice in active_notes[ch].values() {
                             self.voices[voice].messages.push(next_event.clone());
-                            last_prog_change_per_voice[voice] = Some(next_event.0.clone());
                             if voice == self.channels[ch].base_voice {
                                 pushed_to_base = true;
                             }
@@ -577,7 +586,16 @@ impl MidiHandler {
                                 .messages
                                 .push(next_event.clone());
                         }
-                        last_prog_change_per_channel[ch] = Some(next_event.0.clone());
+                    }
+                    MidiEvent::ProgramChange { ch, program } => {
+                        let ch = ch as usize;
+                        // takes effect with the next note
+                        program_per_channel[ch] = Some(program);
+                        let base_voice = self.channels[ch].base_voice;
+                        if ch != 9 && !MidiHandler::is_active(&active_notes, base_voice) {
+                            self.voices[base_voice].messages.push(next_event.clone());
+                            program_per_voice[base_voice] = Some((false, program));
+                        }
                     }
                     MidiEvent::ChannelPressure { ch, .. } => {
                         let ch = ch as usize;
-- 
2.43.0


From 17962678a2a0c1c1ac18ac2eb7b1dd275fd68d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 12/36] fix: put tempo and volume changes at their time in a
 track

They took effect as soon as the previous note or rest ended, or, in the middle
of a note, at its start. A note is split with a tie where needed.
---
 src/nspc/track.rs | 122 +++++++++++++++++++++++++++++++---------------
 1 file changed, 84 insertions(+), 38 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 1df6cde..8aa9918 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -17,6 +17,15 @@ struct Duration {
     overflow_count: u32,
 }
 
+/// A note that has not ended yet.
+#[derive(Debug)]
+struct SoundingNote {
+    start: u32,
+    note: u8,
+    velocity: u8,
+    tied: bool,
+}
+
 // longest track that could fit in audio RAM even as nothing but rests
 const MAX_UNITS: u64 = 0x7f * 0x10000;
 
@@ -100,6 +109,56 @@ impl Track {
         }
     }
 
+    fn push_note(commands: &mut Vec<ParameterizedCommand>, note: &SoundingNote, end: u32) {
+        let duration = Track::get_duration(end - note.start);
+        commands.push(ParameterizedCommand::new(
+            Some(if duration.overflow_count > 0 {
+                0x7f
+            } else {
+                duration.length
+            }),
+            Some((note.velocity / 8).max(1)),
+            Some(7),
+            if note.tied {
+                Command::Tie
+            } else {
+                Command::Note(note.note)
+            },
+        ));
+        for i in 0..duration.overflow_count {
+            commands.push(ParameterizedCommand::new(
+                Some(if i < duration.overflow_count - 1 {
+                    0x7f
+                } else {
+                    duration.length
+                }),
+                None,
+                None,
+                Command::Tie,
+            ));
+        }
+    }
+
+    /// Brings the track to the time of a command, which may be in the middle of a note.
+    fn advance(
+        commands: &mut Vec<ParameterizedCommand>,
+        sounding: &mut Option<SoundingNote>,
+        last_note_end: u32,
+        abs_time: u32,
+    ) -> u32 {
+        match *sounding {
+            Some(ref mut note) => {
+                if abs_time > note.start {
+                    Track::push_note(commands, note, abs_time);
+                    note.start = abs_time;
+                    note.tied = true;
+                }
+                last_note_end
+            }
+            None => Track::insert_rest(commands, last_note_end, abs_time),
+        }
+    }
+
     pub fn new(
         events: &Vec<(Message, u32)>,
         ticks_per_beat: u16,
@@ -108,8 +167,7 @@ impl Track {
         voice: usize,
     ) -> Result<Track, Error> {
         let mut commands = Vec::new();
-        let mut note_start: Option<u32> = None;
-        let mut note_velocity = 0;
+        let mut sounding: Option<SoundingNote> = None;
         let mut last_note_end = 0u32;
         let mut last_note_off = 0u32;
         let mut portamento = false;
@@ -132,6 +190,12 @@ impl Track {
                             + (data[1] as u32) * 0x100
                             + (data[2] as u32);
                         let bpm = (6e7 / (usec_per_beat as f32)).ceil();
+                        last_note_end = Track::advance(
+                            &mut commands,
+                            &mut sounding,
+                            last_note_end,
+                            Track::to_units(abs_time, ticks_per_beat, false).min(max_time),
+                        );
                         commands.push(ParameterizedCommand::new(
                             None,
                             None,
@@ -142,42 +206,14 @@ impl Track {
                 }
                 Message::MidiEvent { ref event, .. } => {
                     match *event {
-                        MidiEvent::NoteOff { note, .. } => {
-                            if let Some(start) = note_start {
+                        MidiEvent::NoteOff { .. } => {
+                            if let Some(note) = sounding.take() {
                                 // a note takes at least one unit
                                 let end = Track::to_units(abs_time, ticks_per_beat, true)
-                                    .max(start + 1);
-                                let duration = Track::get_duration(end - start);
-                                let push_as_tie = commands.last().map_or(false, |cmd| cmd.is_slide());
-                                commands.push(ParameterizedCommand::new(
-                                    Some(if duration.overflow_count > 0 {
-                                        0x7f
-                                    } else {
-                                        duration.length
-                                    }),
-                                    Some((note_velocity / 8).max(1)),
-                                    Some(7),
-                                    if push_as_tie {
-                                        Command::Tie
-                                    } else {
-                                        Command::Note(Track::driver_note(note))
-                                    },
-                                ));
-                                for i in 0..duration.overflow_count {
-                                    commands.push(ParameterizedCommand::new(
-                                        Some(if i < duration.overflow_count - 1 {
-                                            0x7f
-                                        } else {
-                                            duration.length
-                                        }),
-                                        None,
-                                        None,
-                                        Command::Tie,
-                                    ));
-                                }
+                                    .max(note.start + 1);
+                                Track::push_note(&mut commands, &note, end);
                                 last_note_end = end;
                                 last_note_off = abs_time;
-                                note_start = None;
                             }
                         }
                         MidiEvent::NoteOn { velocity, note, .. } => {
@@ -208,11 +244,15 @@ impl Track {
                                 }
                                 pitch_slide.map(|slide| commands.push(slide));
                             }
-                            if note_start.is_some() {
-                                bail!("More than one voice needed on voice {}: notes start at {} and {}", voice, note_start.unwrap(), abs_time);
+                            if let Some(ref sounding) = sounding {
+                                bail!("More than one voice needed on voice {}: notes start at {} and {}", voice, sounding.start, abs_time);
                             }
-                            note_start = Some(last_note_end);
-                            note_velocity = velocity;
+                            sounding = Some(SoundingNote {
+                                start: last_note_end,
+                                note: Track::driver_note(note),
+                                velocity,
+                                tied: commands.last().map_or(false, |cmd| cmd.is_slide()),
+                            });
                         }
                         MidiEvent::PolyphonicKeyPressure { .. } => {
                             // TODO
@@ -225,6 +265,12 @@ impl Track {
                                 }
                                 7 => {
                                     // channel volume
+                                    last_note_end = Track::advance(
+                                        &mut commands,
+                                        &mut sounding,
+                                        last_note_end,
+                                        Track::to_units(abs_time, ticks_per_beat, false),
+                                    );
                                     commands.push(ParameterizedCommand::new(
                                         None,
                                         None,
-- 
2.43.0


From ba9df5b5fa6b427569447a09555c5d9e0d198e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 13/36] fix: don't play a note that is struck again as it
 starts

The same key started twice on a channel at one time became a note of length 0,
which plays for as long as the previous command did.
---
 src/nspc/track.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 8aa9918..3f01a66 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -20,6 +20,7 @@ struct Duration {
 /// A note that has not ended yet.
 #[derive(Debug)]
 struct SoundingNote {
+    abs_time: u32,
     start: u32,
     note: u8,
     velocity: u8,
@@ -207,7 +208,9 @@ impl Track {
                 Message::MidiEvent { ref event, .. } => {
                     match *event {
                         MidiEvent::NoteOff { .. } => {
-                            if let Some(note) = sounding.take() {
+                            // (a note that is struck again as it starts isn't heard)
+                            let note = sounding.take();
+                            if let Some(note) = note.filter(|note| note.abs_time < abs_time) {
                                 // a note takes at least one unit
                                 let end = Track::to_units(abs_time, ticks_per_beat, true)
                                     .max(note.start + 1);
@@ -248,6 +251,7 @@ impl Track {
                                 bail!("More than one voice needed on voice {}: notes start at {} and {}", voice, sounding.start, abs_time);
                             }
                             sounding = Some(SoundingNote {
+                                abs_time,
                                 start: last_note_end,
                                 note: Track::driver_note(note),
                                 velocity,
-- 
2.43.0


From a49d5d726f946140ad086dfc1a5f54e6bdbc9c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 14/36] fix: patch the calls of the track that starts the
 overflow chunk where it is written

Their addresses were written to where the track would have been in the base
chunk, past its end.
---
 src/rom/mod.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 5d034b2..7363b7d 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -276,8 +276,6 @@ fn write_bank(
         for i in 0..song_data.get_num_tracks() {
             let track_data = Vec::<u8>::new();
             let mut track_call_loops = Vec::<CallLoopRef>::new();
-            let mut pre_chunk_switch_track_call_loops = Vec::<CallLoopRef>::new();
-            let track_start_offset = track_data_offset;
             let mut cursor = Cursor::new(track_data);
             song_data.write_track(&mut cursor, i, &mut track_call_loops)?;
             let track_data = cursor.into_inner();
@@ -299,8 +297,6 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
-                pre_chunk_switch_track_call_loops.extend_from_slice(track_call_loops.as_slice());
-                track_call_loops.clear();
             };
 
             if verbose {
@@ -317,15 +313,6 @@ fn write_bank(
                     track_data.iter().cloned(),
                 );
                 track_addrs.push(aram_base_addr + track_data_offset);
-                pre_chunk_switch_track_call_loops
-                    .iter()
-                    .for_each(|call_loop| {
-                        call_loops.push(RomCallLoopRef {
-                            target_track: call_loop.target_track,
-                            chunk_base: base_chunk_addr + track_start_offset,
-                            ref_pos: call_loop.ref_pos,
-                        })
-                    });
                 track_call_loops.iter().for_each(|call_loop| {
                     call_loops.push(RomCallLoopRef {
                         target_track: call_loop.target_track,
-- 
2.43.0


From eaa58feba8660ad2f66b63f4f826a7feaa99b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 15/36] fix: check that data moved to the overflow chunk fits
 there

---
 src/rom/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 7363b7d..7eb3534 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -225,6 +225,11 @@ fn write_bank(
             rom_addr = overflow_chunk_addr;
             chunk_length = overflow_chunk_len;
             aram_base_addr = aram_overflow_base;
+            ensure!(
+                (if song_def.loops { 8 } else { 4 }) + 16 <= chunk_length,
+                "{} bank does not fit in available chunks",
+                bank.name
+            );
         };
 
         // write song address to song table
@@ -297,6 +302,11 @@ fn write_bank(
                 rom_addr = overflow_chunk_addr;
                 chunk_length = overflow_chunk_len;
                 aram_base_addr = aram_overflow_base;
+                ensure!(
+                    track_data.len() <= chunk_length,
+                    "{} bank does not fit in available chunks",
+                    bank.name
+                );
             };
 
             if verbose {
-- 
2.43.0


From 53049da3d0480f17ccc98df76b7c167b5847a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 16/36] fix: replace an existing output file when generating a
 fake ROM

---
 src/rom/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 7eb3534..e82c5c0 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -461,6 +461,7 @@ pub fn gen_fake_rom(
     let mut out_file = OpenOptions::new()
         .create(true)
         .write(true)
+        .truncate(true)
         .open(output_path)?;
     out_file.write(&out_romdata)?;
     Ok(())
-- 
2.43.0


From cfd44e2610ab3bc7712926fa7f980e7ac2b9ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 17/36] fix: write both operands of channel volume fades

---
 src/nspc/command.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nspc/command.rs b/src/nspc/command.rs
index 3a4dc87..b9e47f8 100644
--- a/src/nspc/command.rs
+++ b/src/nspc/command.rs
@@ -109,7 +109,7 @@ pub enum Command {
     Tremolo(u8, u8, u8),
     TremoloOff,
     ChannelVolume(u8),
-    ChannelVolumeFade(u8),
+    ChannelVolumeFade(u8, u8),
     CallLoop(usize, u8),
     VibratoFade(u8),
     PitchEnvelopeTo(u8, u8, u8),
@@ -201,9 +201,10 @@ impl Command {
                 out.write_u8(0xed)?;
                 out.write_u8(p1)?;
             }
-            Command::ChannelVolumeFade(p1) => {
+            Command::ChannelVolumeFade(p1, p2) => {
                 out.write_u8(0xee)?;
                 out.write_u8(p1)?;
+                out.write_u8(p2)?;
             }
             Command::CallLoop(p1, p2) => {
                 out.write_u8(0xef)?;
-- 
2.43.0


From 288718dfa466e3e8a1fee79b98cfeb4f7699f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 18/36] fix: refuse songs with more tracks than a part has room
 for

---
 src/rom/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index e82c5c0..3323763 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -337,6 +337,11 @@ fn write_bank(
         }
 
         // part data
+        ensure!(
+            song_data.get_part_tracks(0).len() <= 8,
+            "Song for {} bank has more than 8 tracks",
+            bank.name
+        );
         if verbose {
             println!(
                 "Writing part data to 0x{:X} (0x{:X})",
-- 
2.43.0


From 444b3d1f7307617579e320bf8e781b29933a860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 19/36] fix: keep portamento times within what a pitch slide
 can take

No time at all left the note at the previous pitch, and the remainder of a long
one was taken.
---
 src/nspc/track.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 3f01a66..5353bd3 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -234,13 +234,12 @@ impl Track {
                                 {
                                     let last_command = commands.last();
                                     pitch_slide = last_command.and_then(|cmd| {
+                                        // (the driver doesn't do slides that take no time)
                                         cmd.create_pitch_slide(
-                                            Track::get_duration(Track::to_units(
-                                                port_time as u32,
-                                                ticks_per_beat,
-                                                true,
-                                            ))
-                                                .length,
+                                            Track::to_units(port_time as u32, ticks_per_beat, true)
+                                                .max(1)
+                                                .min(0x7f)
+                                                as u8,
                                             Track::driver_note(note),
                                         )
                                     });
-- 
2.43.0


From dc83cdbbab5bc8ea1573ce4b3a2076f5216af94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 20/36] fix: compare channels once when searching for base
 voices

---
 src/midi/mod.rs | 70 ++++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 33 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 0a2d01b..cb8e9d8 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -201,17 +201,23 @@ impl MidiHandler {
                 }
             }
         }
-        let active_base_intervals = vec![
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-            vec![],
-        ];
-        self.find_base_voices(0, &active_base_intervals, path, verbose)?;
+        let overlaps: Vec<Vec<Option<VoiceInterval>>> = self
+            .channels
+            .iter()
+            .map(|channel| {
+                self.channels
+                    .iter()
+                    .map(|other| {
+                        MidiHandler::overlapping_interval(&channel.intervals, &other.intervals)
+                    })
+                    .collect()
+            })
+            .collect();
+        if !self.find_base_voices(0, &mut vec![vec![]; 8], &overlaps, verbose) {
+            return Err(Error::from(MidiError::CouldntFit {
+                path: path.to_str().unwrap().to_owned(),
+            }));
+        }
         self.channels_to_voices(path, verbose)?;
         Ok(())
     }
@@ -267,15 +273,16 @@ impl MidiHandler {
         }
     }
 
+    /// Assigns voices to the channels from the given one on, whichever way is found first.
     fn find_base_voices(
         &mut self,
         channel_idx: usize,
-        active_base_intervals: &Vec<Vec<VoiceInterval>>,
-        path: &Path,
+        channels_per_voice: &mut Vec<Vec<usize>>,
+        overlaps: &Vec<Vec<Option<VoiceInterval>>>,
         verbose: bool,
-    ) -> Result<(), Error> {
+    ) -> bool {
         if channel_idx == self.channels.len() {
-            return Ok(());
+            return true;
         }
         if verbose {
             println!("find base voice for channel {}", channel_idx);
@@ -287,17 +294,18 @@ impl MidiHandler {
         {
             // no notes, so any voice will do
             self.channels[channel_idx].base_voice = 0;
-            return self.find_base_voices(channel_idx + 1, active_base_intervals, path, verbose);
+            return self.find_base_voices(channel_idx + 1, channels_per_voice, overlaps, verbose);
         }
         let mut valid_voices = vec![];
         let mut found_empty = false;
         for i in 0..8 {
-            let empty = active_base_intervals[i].is_empty();
+            let empty = channels_per_voice[i].is_empty();
             if !found_empty || !empty {
-                match MidiHandler::overlapping_interval(
-                    &self.channels[channel_idx].intervals,
-                    &active_base_intervals[i],
-                ) {
+                match channels_per_voice[i]
+                    .iter()
+                    .filter_map(|&other| overlaps[channel_idx][other].as_ref())
+                    .next()
+                {
                     Some(interval) => {
                         if verbose {
                             println!("voice {} overlaps with {:?}", i, interval);
@@ -319,20 +327,16 @@ impl MidiHandler {
             if verbose {
                 println!("channel {}: trying {}", channel_idx, voice);
             }
-            let mut active_base_intervals = active_base_intervals.clone();
-            active_base_intervals[voice]
-                .extend_from_slice(self.channels[channel_idx].intervals.as_slice());
-            match self.find_base_voices(channel_idx + 1, &active_base_intervals, path, verbose) {
-                Ok(_) => {
-                    self.channels[channel_idx].base_voice = voice;
-                    return Ok(());
-                }
-                Err(_) => (),
+            channels_per_voice[voice].push(channel_idx);
+            let found =
+                self.find_base_voices(channel_idx + 1, channels_per_voice, overlaps, verbose);
+            channels_per_voice[voice].pop();
+            if found {
+                self.channels[channel_idx].base_voice = voice;
+                return true;
             }
         }
-        Err(Error::from(MidiError::CouldntFit {
-            path: path.to_str().unwrap().to_owned(),
-        }))
+        false
     }
 
     fn overlapping_interval(
-- 
2.43.0


From 2050667109198306b050ff61f0674035e6e7ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 21/36] fix: keep portamento to the channel that sets it

---
 src/midi/mod.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index cb8e9d8..9bc25e2 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -9,6 +9,8 @@ use super::nspc::instruments::*;
 const SNARE_NOTE: u8 = 68;
 // as set by Song at the start of each track, and the MIDI default
 const DEFAULT_VOLUME: u8 = 100;
+// portamento time (high and low byte) and switch
+const PORTAMENTO_CONTROLS: [u8; 3] = [5, 37, 65];
 
 #[derive(Debug, Fail)]
 enum MidiError {
@@ -371,10 +373,12 @@ impl MidiHandler {
         let mut curr_event_idx: Vec<usize> = Vec::new();
         let mut volume_per_channel: Vec<u8> = Vec::new();
         let mut program_per_channel: Vec<Option<u8>> = Vec::new();
+        let mut portamento_per_channel: Vec<[u8; 3]> = Vec::new();
         let mut last_pitch_bend_per_channel: Vec<Option<Message>> = Vec::new();
         let mut volume_per_voice: Vec<u8> = Vec::new();
         // channel and program, as programs of the percussion channel are driver instruments
         let mut program_per_voice: Vec<Option<(bool, u8)>> = Vec::new();
+        let mut portamento_per_voice: Vec<[u8; 3]> = Vec::new();
         let mut last_pitch_bend_per_voice: Vec<Option<Message>> = Vec::new();
         let mut last_channel_per_voice: Vec<Option<usize>> = Vec::new();
         let mut active_notes: Vec<HashMap<u8, usize>> = Vec::new();
@@ -383,12 +387,14 @@ impl MidiHandler {
             curr_event_idx.push(0);
             volume_per_channel.push(DEFAULT_VOLUME);
             program_per_channel.push(None);
+            portamento_per_channel.push([0; 3]);
             last_pitch_bend_per_channel.push(None);
             active_notes.push(HashMap::new());
         }
         for voice in 0..self.voices.len() {
             volume_per_voice.push(DEFAULT_VOLUME);
             program_per_voice.push(None);
+            portamento_per_voice.push([0; 3]);
             last_pitch_bend_per_voice.push(None);
             last_channel_per_voice.push(
                 self.channels
@@ -521,6 +527,23 @@ impl MidiHandler {
                                     abs_time,
                                 ));
                             }
+                            for (i, &control) in PORTAMENTO_CONTROLS.iter().enumerate() {
+                                let data = portamento_per_channel[ch][i];
+                                if portamento_per_voice[next_voice][i] != data {
+                                    portamento_per_voice[next_voice][i] = data;
+                                    messages.push((
+                                        Message::MidiEvent {
+                                            delta_time,
+                                            event: MidiEvent::ControlChange {
+                                                ch: ch as u8,
+                                                control,
+                                                data,
+                                            },
+                                        },
+                                        abs_time,
+                                    ));
+                                }
+                            }
                             let program = if ch == 9 {
                                 Some(if note == 38 || note == 40 { SNARE } else { CYMBAL })
                             } else {
@@ -576,6 +599,16 @@ impl MidiHandler {
                             volume_per_voice[base_voice] = data;
                         }
                     }
+                    MidiEvent::ControlChange { ch, control, data }
+                        if PORTAMENTO_CONTROLS.contains(&control) =>
+                    {
+                        // takes effect with the next note
+                        for (i, &portamento_control) in PORTAMENTO_CONTROLS.iter().enumerate() {
+                            if control == portamento_control {
+                                portamento_per_channel[ch as usize][i] = data;
+                            }
+                        }
+                    }
                     MidiEvent::ControlChange { ch, .. } => {
                         let ch = ch as usize;
                         let mut pushed_to_base = false;
-- 
2.43.0


From 464fcc8fec923d84a6276b4252b3f3ef9c8bc831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 22/36] fix: don't lengthen a note struck again at the tick of
 a volume or tempo change

The change ended the first note, which then got another unit of its own.
---
 src/nspc/track.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 5353bd3..05bd695 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -21,6 +21,7 @@ struct Duration {
 #[derive(Debug)]
 struct SoundingNote {
     abs_time: u32,
+    shortest_end: u32,
     start: u32,
     note: u8,
     velocity: u8,
@@ -213,8 +214,10 @@ impl Track {
                             if let Some(note) = note.filter(|note| note.abs_time < abs_time) {
                                 // a note takes at least one unit
                                 let end = Track::to_units(abs_time, ticks_per_beat, true)
-                                    .max(note.start + 1);
-                                Track::push_note(&mut commands, &note, end);
+                                    .max(note.shortest_end);
+                                if end > note.start {
+                                    Track::push_note(&mut commands, &note, end);
+                                }
                                 last_note_end = end;
                                 last_note_off = abs_time;
                             }
@@ -251,6 +254,7 @@ impl Track {
                             }
                             sounding = Some(SoundingNote {
                                 abs_time,
+                                shortest_end: last_note_end + 1,
                                 start: last_note_end,
                                 note: Track::driver_note(note),
                                 velocity,
-- 
2.43.0


From aac6c66026f7cf10c321b1d3204cdcffcc3f485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 23/36] fix: report an output file that could not be written in
 full

---
 src/rom/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 3323763..2e4a8da 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -119,7 +119,7 @@ pub fn write(
     )?;
 
     file.seek(SeekFrom::Start(0))?;
-    file.write(&romdata)?;
+    file.write_all(&romdata)?;
     songs_pb.finish_print("All songs written.");
     mb_thread.join().unwrap();
     Ok(())
@@ -468,6 +468,6 @@ pub fn gen_fake_rom(
         .write(true)
         .truncate(true)
         .open(output_path)?;
-    out_file.write(&out_romdata)?;
+    out_file.write_all(&out_romdata)?;
     Ok(())
 }
-- 
2.43.0


From d2cb7c6ddcd53095249f6eb19fc49bfd1ebb52e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 24/36] fix: keep a repeated key sounding when its note-off
 follows the next note-on

---
 src/midi/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 9bc25e2..819cf28 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -230,7 +230,8 @@ impl MidiHandler {
                 println!("extracting events from midi track {}", i);
             }
             let mut abs_time = 0;
-            let mut note_on_times: HashMap<(u8, u8), u32> = HashMap::new();
+            // time of the last note-on and whether the note-off of the note it ended may follow
+            let mut note_on_times: HashMap<(u8, u8), (u32, bool)> = HashMap::new();
             for message in &track.messages {
                 match *message {
                     Message::MetaEvent { delta_time, .. } => {
@@ -247,12 +248,20 @@ impl MidiHandler {
                             MidiEvent::NoteOff { ch, note, .. }
                             | MidiEvent::NoteOn { ch, note, velocity: 0 } => {
                                 // note-offs are sorted first, so a note can't end as it starts
-                                if note_on_times.remove(&(ch, note)) == Some(abs_time) {
-                                    event_time += 1;
+                                match note_on_times.remove(&(ch, note)) {
+                                    Some((time, true)) if time == abs_time => {
+                                        note_on_times.insert((ch, note), (time, false));
+                                    }
+                                    Some((time, false)) if time == abs_time => event_time += 1,
+                                    _ => {}
                                 }
                             }
                             MidiEvent::NoteOn { ch, note, .. } => {
-                                note_on_times.entry((ch, note)).or_insert(abs_time);
+                                let last_on = note_on_times.get(&(ch, note)).cloned();
+                                if last_on.map_or(true, |(time, _)| time < abs_time) {
+                                    note_on_times
+                                        .insert((ch, note), (abs_time, last_on.is_some()));
+                                }
                             }
                             _ => {}
                         }
-- 
2.43.0


From 7a8c1dcd971ee1af0096ec72dd9f5a044cf41a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 25/36] fix: don't take the end of a chunk chain for the song
 chunk

---
 src/rom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 2e4a8da..92f9a89 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -150,7 +150,7 @@ fn write_bank(
     while last_chunk_length != 0 {
         let chunk = Chunk::load(&romdata, addr);
         last_chunk_length = chunk.length;
-        if chunk.aram_addr == ARAM_BASE {
+        if chunk.length > 0 && chunk.aram_addr == ARAM_BASE {
             base_chunk_addr = chunk.offset_addr;
             base_chunk_len = chunk.length;
             addr = chunk.offset_addr + chunk.length;
-- 
2.43.0


From 8a1c75966ac3d3748fd6b219be1fffd26bb5a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 26/36] fix: count every occurrence of a repeated sequence

A run of four or more repeats was taken for one of three, and splitting a
sequence forgot its repeats, so parts of repeated passages stayed in the
tracks or ended up in further copies of the same call loop.
---
 src/nspc/seqtree.rs | 59 +++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index fa5be4e..a6fbe7e 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -420,7 +420,9 @@ impl SeqTree {
                             break;
                         }
                     }
-                    if !shared_prefix.is_empty() && shared_prefix[0].can_be_first_in_call_loop() {
+                    if !shared_prefix.is_empty()
+                        && shared_prefix[0].can_be_first_in_call_loop()
+                    {
                         found_edge = true;
                         let shared_seq_len = seq_len + shared_prefix.len();
                         if shared_prefix.len() == edge.commands.len() {
@@ -438,13 +440,16 @@ impl SeqTree {
                             };
                             let old_target = edge.target.take();
                             if let Some(old_target) = old_target {
+                                let old_seq_len = seq_len + edge.commands.len();
                                 for loc in &old_target.locations {
-                                    add_location(
-                                        &mut new_target.locations,
-                                        loc.track_idx,
-                                        loc.cmd_idx,
-                                        shared_seq_len,
-                                    );
+                                    for i in 0..loc.repeat_count as usize {
+                                        add_location(
+                                            &mut new_target.locations,
+                                            loc.track_idx,
+                                            loc.cmd_idx + i * old_seq_len,
+                                            shared_seq_len,
+                                        );
+                                    }
                                 }
                                 let mut old_suffix = Vec::new();
                                 old_suffix.extend_from_slice(&edge.commands[shared_prefix.len()..]);
@@ -563,23 +568,35 @@ impl SeqTree {
     }
 
     fn consolidate_locations(locations: &Vec<Location>, seq_length: usize) -> Vec<Location> {
-        let mut consolidated = Vec::new();
+        // every occurrence on its own, in order
+        let mut occurrences = Vec::new();
         for location in locations {
-            if consolidated.last().map_or(false, |loc: &Location| {
-                loc.track_idx == location.track_idx
-                    && loc.cmd_idx + seq_length * loc.repeat_count as usize > location.cmd_idx
-            }) {
-                // too close, skip
-            } else if consolidated.last().map_or(false, |loc: &Location| {
-                loc.track_idx == location.track_idx
-                    && loc.cmd_idx + seq_length * loc.repeat_count as usize == location.cmd_idx
-                    && loc.repeat_count < u8::max_value()
-            }) {
-                consolidated.last_mut().unwrap().repeat_count += 1;
-            } else {
-                consolidated.push(location.clone());
+            for i in 0..location.repeat_count as usize {
+                occurrences.push((location.track_idx, location.cmd_idx + i * seq_length));
             }
         }
+        occurrences.sort();
+        let mut consolidated: Vec<Location> = Vec::new();
+        for (track_idx, cmd_idx) in occurrences {
+            if let Some(loc) = consolidated.last_mut() {
+                if loc.track_idx == track_idx {
+                    let end = loc.cmd_idx + seq_length * loc.repeat_count as usize;
+                    if end > cmd_idx {
+                        // too close, skip
+                        continue;
+                    }
+                    if end == cmd_idx && loc.repeat_count < u8::max_value() {
+                        loc.repeat_count += 1;
+                        continue;
+                    }
+                }
+            }
+            consolidated.push(Location {
+                track_idx,
+                cmd_idx,
+                repeat_count: 1,
+            });
+        }
         consolidated
     }
 }
-- 
2.43.0


From 087e451e9dd08d07b85f347da9e5f29438fb6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:09 +0000
Subject: [PATCH 27/36] fix: find repeated sequences that differ at a tie

Only the first command of a sequence must not be a tie; branches within a
sequence that began with one were never matched again.
---
 src/nspc/seqtree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/seqtree.rs b/src/nspc/seqtree.rs
index a6fbe7e..89a629f 100644
--- a/src/nspc/seqtree.rs
+++ b/src/nspc/seqtree.rs
@@ -421,7 +421,7 @@ impl SeqTree {
                         }
                     }
                     if !shared_prefix.is_empty()
-                        && shared_prefix[0].can_be_first_in_call_loop()
+                        && (seq_len > 0 || shared_prefix[0].can_be_first_in_call_loop())
                     {
                         found_edge = true;
                         let shared_seq_len = seq_len + shared_prefix.len();
-- 
2.43.0


From facd5da58361fc45d30ea3f2dd6f4223bc5af948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 28/36] fix: leave out calls to empty tracks

---
 src/nspc/track.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 05bd695..89df07a 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -360,9 +360,14 @@ impl Track {
         let mut duration = 0xff;
         let mut velocity = None;
         for cmd in &self.commands {
+            let loop_track = cmd.call_loop_target().and_then(|target| tracks.get(target));
+            if loop_track.map_or(false, |track| track.commands.is_empty()) {
+                // nothing to play, and an empty track has no address
+                continue;
+            }
             let (mut duration_out, mut velocity_out) =
                 cmd.write(out, duration, velocity, call_loops)?;
-            if let Some(track) = cmd.call_loop_target().and_then(|target| tracks.get(target)) {
+            if let Some(track) = loop_track {
                 // the called track leaves its own duration and velocity behind
                 let (loop_duration, loop_velocity) =
                     track.write(&mut Cursor::new(Vec::new()), &mut Vec::new(), &[])?;
-- 
2.43.0


From 852d570364810a6ff5ee9fcdd262c2db17ed8f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:47 +0000
Subject: [PATCH 29/36] fix: refuse song chunks too short for the song table

---
 src/rom/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 92f9a89..712ca21 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -172,6 +172,11 @@ fn write_bank(
         "Couldn't find overflow chunk for {} bank",
         bank.name
     );
+    ensure!(
+        base_chunk_len >= first_song_addr - ARAM_BASE,
+        "Song table for {} bank does not fit in base chunk",
+        bank.name
+    );
     let mut rom_addr = base_chunk_addr;
     let mut chunk_length = base_chunk_len;
     let mut aram_base_addr = ARAM_BASE;
-- 
2.43.0


From 9cf89c232fdaaf7b8348f23a25c7c2e6804a995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 30/36] fix: never write a tempo of 0

---
 src/nspc/track.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 89df07a..717ddfe 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -202,7 +202,7 @@ impl Track {
                             None,
                             None,
                             None,
-                            Command::Tempo((bpm * tempo_factor) as u8),
+                            Command::Tempo(((bpm * tempo_factor) as u8).max(1)),
                         ))
                     }
                 }
-- 
2.43.0


From 66ad4744e08567f2596c062773396aebda46576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:59 +0000
Subject: [PATCH 31/36] fix: don't overwrite the ROM with its fake

---
 src/rom/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rom/mod.rs b/src/rom/mod.rs
index 712ca21..8a6cb79 100644
--- a/src/rom/mod.rs
+++ b/src/rom/mod.rs
@@ -445,6 +445,13 @@ pub fn gen_fake_rom(
     output_path: &Path,
     bank_base_addrs: [u32; 3],
 ) -> Result<(), Error> {
+    if let Ok(existing_path) = output_path.canonicalize() {
+        ensure!(
+            existing_path != rom_path.canonicalize()?,
+            "Output file is the ROM itself: {:?}",
+            rom_path
+        );
+    }
     let mut rom_file = OpenOptions::new().read(true).open(rom_path)?;
     let mut romdata = Vec::new();
     rom_file.read_to_end(&mut romdata)?;
-- 
2.43.0


From 81008a93c86f3ce7e8d417f9c999bce4a747f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:35 +0000
Subject: [PATCH 32/36] fix: read MIDI files to the end even if a track begins
 at the edge of the reader's buffer

---
 src/midi/mod.rs | 65 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 819cf28..f45c269 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -149,12 +149,24 @@ impl MidiHandler {
         if verbose {
             println!("reading {:?}", path);
         }
-        {
-            let mut midi_reader =
-                Reader::new(self, path).map_err(|err| format_err!("MIDI read error: {:?}", err))?;
-            midi_reader
-                .read()
-                .map_err(|err| format_err!("MIDI read error: {:?}", err))?;
+        loop {
+            // the reader stops at a track whose tag is at the end of its buffer, so go on from there
+            let tracks_read = self.tracks.len();
+            let mut handler = TrackHandler {
+                midi: self,
+                tracks_to_skip: tracks_read,
+                tracks_skipped: 0,
+            };
+            {
+                let mut midi_reader = Reader::new(&mut handler, path)
+                    .map_err(|err| format_err!("MIDI read error: {:?}", err))?;
+                midi_reader
+                    .read()
+                    .map_err(|err| format_err!("MIDI read error: {:?}", err))?;
+            }
+            if handler.midi.tracks.len() == tracks_read {
+                break;
+            }
         }
         self.tracks_to_channels(verbose);
         for (i, mut channel) in &mut self.channels.iter_mut().enumerate() {
@@ -738,3 +750,44 @@ impl Handler for MidiHandler {
         self.tracks.push(MidiTrack::new());
     }
 }
+
+/// Passes on what comes after the given number of tracks.
+struct TrackHandler<'a> {
+    midi: &'a mut MidiHandler,
+    tracks_to_skip: usize,
+    tracks_skipped: usize,
+}
+
+impl<'a> Handler for TrackHandler<'a> {
+    fn header(&mut self, format: u16, track: u16, time_base: u16) {
+        self.midi.header(format, track, time_base);
+    }
+
+    fn meta_event(&mut self, delta_time: u32, event: &MetaEvent, data: &Vec<u8>) {
+        self.midi.meta_event(delta_time, event, data);
+    }
+
+    fn midi_event(&mut self, delta_time: u32, event: &MidiEvent) {
+        self.midi.midi_event(delta_time, event);
+    }
+
+    fn sys_ex_event(&mut self, delta_time: u32, event: &SysExEvent, data: &Vec<u8>) {
+        self.midi.sys_ex_event(delta_time, event, data);
+    }
+
+    fn track_change(&mut self) {
+        if self.tracks_skipped < self.tracks_to_skip {
+            self.tracks_skipped += 1;
+        } else {
+            self.midi.track_change();
+        }
+    }
+
+    fn status(&mut self) -> HandlerStatus {
+        if self.midi.tracks.len() == self.tracks_to_skip {
+            HandlerStatus::SkipTrack
+        } else {
+            HandlerStatus::Continue
+        }
+    }
+}
-- 
2.43.0


From bf050b43e907969a6cb90ed2b6653ee76f917e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:41 +0000
Subject: [PATCH 33/36] fix: refuse MIDI files whose times are in frames, not
 beats

---
 src/midi/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index f45c269..293ebe8 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -708,6 +708,9 @@ impl Handler for MidiHandler {
         if format != 1 {
             unimplemented!("MIDI format {}", format)
         }
+        if time_base & 0x8000 != 0 {
+            unimplemented!("SMPTE time division {:X}", time_base)
+        }
         self.ticks_per_beat = time_base;
     }
 
-- 
2.43.0


From 9245a12e3bc581aa3589dd6d7c5988d006a6fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:46 +0000
Subject: [PATCH 34/36] fix: a song takes at least one unit, or it would hang
 the driver

---
 src/nspc/track.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nspc/track.rs b/src/nspc/track.rs
index 717ddfe..bbddefd 100644
--- a/src/nspc/track.rs
+++ b/src/nspc/track.rs
@@ -174,7 +174,8 @@ impl Track {
         let mut last_note_off = 0u32;
         let mut portamento = false;
         let mut port_time = 0u16;
-        let max_time = Track::to_units(max_time, ticks_per_beat, false);
+        // (a song that takes no time would keep the driver busy forever)
+        let max_time = Track::to_units(max_time, ticks_per_beat, false).max(1);
         ensure!(
             (max_time as u64) <= MAX_UNITS,
             "Song is too long: {} time units",
-- 
2.43.0


From 726a31d041c93060191cddeb05d7dec80e63bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:52 +0000
Subject: [PATCH 35/36] fix: channels without a program play the first one
 instead of whatever their voice has

---
 src/midi/mod.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index 293ebe8..f5a531a 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -8,6 +8,7 @@ use super::nspc::instruments::*;
 
 const SNARE_NOTE: u8 = 68;
 // as set by Song at the start of each track, and the MIDI default
+const DEFAULT_PROGRAM: u8 = 0;
 const DEFAULT_VOLUME: u8 = 100;
 // portamento time (high and low byte) and switch
 const PORTAMENTO_CONTROLS: [u8; 3] = [5, 37, 65];
@@ -393,7 +394,7 @@ impl MidiHandler {
         let mut last_abs_time: Vec<u32> = Vec::new();
         let mut curr_event_idx: Vec<usize> = Vec::new();
         let mut volume_per_channel: Vec<u8> = Vec::new();
-        let mut program_per_channel: Vec<Option<u8>> = Vec::new();
+        let mut program_per_channel: Vec<u8> = Vec::new();
         let mut portamento_per_channel: Vec<[u8; 3]> = Vec::new();
         let mut last_pitch_bend_per_channel: Vec<Option<Message>> = Vec::new();
         let mut volume_per_voice: Vec<u8> = Vec::new();
@@ -407,7 +408,7 @@ impl MidiHandler {
             last_abs_time.push(0);
             curr_event_idx.push(0);
             volume_per_channel.push(DEFAULT_VOLUME);
-            program_per_channel.push(None);
+            program_per_channel.push(DEFAULT_PROGRAM);
             portamento_per_channel.push([0; 3]);
             last_pitch_bend_per_channel.push(None);
             active_notes.push(HashMap::new());
@@ -566,24 +567,22 @@ impl MidiHandler {
                                 }
                             }
                             let program = if ch == 9 {
-                                Some(if note == 38 || note == 40 { SNARE } else { CYMBAL })
+                                if note == 38 || note == 40 { SNARE } else { CYMBAL }
                             } else {
                                 program_per_channel[ch]
                             };
-                            if let Some(program) = program {
-                                if program_per_voice[next_voice] != Some((ch == 9, program)) {
-                                    program_per_voice[next_voice] = Some((ch == 9, program));
-                                    messages.push((
-                                        Message::MidiEvent {
-                                            delta_time,
-                                            event: MidiEvent::ProgramChange {
-                                                ch: ch as u8,
-                                                program,
-                                            },
+                            if program_per_voice[next_voice] != Some((ch == 9, program)) {
+                                program_per_voice[next_voice] = Some((ch == 9, program));
+                                messages.push((
+                                    Message::MidiEvent {
+                                        delta_time,
+                                        event: MidiEvent::ProgramChange {
+                                            ch: ch as u8,
+                                            program,
                                         },
-                                        abs_time,
-                                    ));
-                                }
+                                    },
+                                    abs_time,
+                                ));
                             }
                             if ch == 9 {
                                 messages.push((Message::MidiEvent {
@@ -648,7 +647,7 @@ impl MidiHandler {
                     MidiEvent::ProgramChange { ch, program } => {
                         let ch = ch as usize;
                         // takes effect with the next note
-                        program_per_channel[ch] = Some(program);
+                        program_per_channel[ch] = program;
                         let base_voice = self.channels[ch].base_voice;
                         if ch != 9 && !MidiHandler::is_active(&active_notes, base_voice) {
                             self.voices[base_voice].messages.push(next_event.clone());
-- 
2.43.0


From 03d9b944b4549f680bbce5dbf79a7c795831d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:57 +0000
Subject: [PATCH 36/36] fix: start songs that set no tempo at 120 beats per
 minute

---
 src/midi/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/midi/mod.rs b/src/midi/mod.rs
index f5a531a..57ba135 100644
--- a/src/midi/mod.rs
+++ b/src/midi/mod.rs
@@ -9,6 +9,7 @@ use super::nspc::instruments::*;
 const SNARE_NOTE: u8 = 68;
 // as set by Song at the start of each track, and the MIDI default
 const DEFAULT_PROGRAM: u8 = 0;
+const DEFAULT_TEMPO: [u8; 3] = [0x07, 0xa1, 0x20]; // 120 beats per minute
 const DEFAULT_VOLUME: u8 = 100;
 // portamento time (high and low byte) and switch
 const PORTAMENTO_CONTROLS: [u8; 3] = [5, 37, 65];
@@ -425,6 +426,29 @@ impl MidiHandler {
                     .map(|(idx, _)| idx),
             );
         }
+        let has_notes = channels
+            .iter()
+            .flat_map(|channel| &channel.intervals)
+            .any(|interval| interval.voices > 0);
+        let sets_tempo = channels.iter().flat_map(|channel| &channel.messages).any(
+            |&(ref message, abs_time)| match *message {
+                Message::MetaEvent {
+                    event: MetaEvent::SetTempo,
+                    ..
+                } => abs_time == 0,
+                _ => false,
+            },
+        );
+        if has_notes && !sets_tempo {
+            self.voices[0].messages.push((
+                Message::MetaEvent {
+                    delta_time: 0,
+                    event: MetaEvent::SetTempo,
+                    data: DEFAULT_TEMPO.to_vec(),
+                },
+                0,
+            ));
+        }
         let mut channels_done = channels
             .iter()
             .filter(|channel| channel.messages.is_empty())
-- 
2.43.0

