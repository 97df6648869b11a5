//! Songs described as midi2spc JSON: generator, serialiser and reference interpreter.
use crate::spc::Ev;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum JCmd {
    /// raw note byte, duration, velocity, gate
    Note(u8, Option<u8>, Option<u8>, Option<u8>),
    Rest(Option<u8>),
    Tie(Option<u8>),
    /// driver effect opcode with operands
    Fx(u8, Vec<u8>),
    /// subroutine number, repeat count
    Call(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct JSong {
    /// voice tracks in part order
    pub voices: Vec<Vec<JCmd>>,
    pub subs: Vec<Vec<JCmd>>,
    /// where the subroutines go in the track list: before the voices?
    pub subs_first: bool,
    /// rotation of the part's track list
    pub rot: u8,
    /// the voices of the part, where they are not simply all (so some may come twice or not at all)
    #[serde(default)]
    pub pick: Vec<u8>,
    /// write absent parameters as 0 on calls, like the converter, or leave them null
    pub zeros: bool,
}

/// JSON name, opcode, operand count: the documented commands.
pub const NAMES: [(&str, u8, usize); 26] = [
    ("SetInstrument", 0xe0, 1),
    ("Pan", 0xe1, 1),
    ("PanFade", 0xe2, 2),
    ("Vibrato", 0xe3, 3),
    ("VibratoOff", 0xe4, 0),
    ("MasterVolume", 0xe5, 1),
    ("MasterVolumeFade", 0xe6, 2),
    ("Tempo", 0xe7, 1),
    ("TempoFade", 0xe8, 2),
    ("GlobalTranspose", 0xe9, 1),
    ("ChannelTranspose", 0xea, 1),
    ("Tremolo", 0xeb, 3),
    ("TremoloOff", 0xec, 0),
    ("ChannelVolume", 0xed, 1),
    ("ChannelVolumeFade", 0xee, 2),
    ("VibratoFade", 0xf0, 1),
    ("PitchEnvelopeTo", 0xf1, 3),
    ("PitchEnvelopeFrom", 0xf2, 3),
    ("PitchEnvelopeOff", 0xf3, 0),
    ("Tuning", 0xf4, 1),
    ("EchoVolume", 0xf5, 3),
    ("EchoOff", 0xf6, 0),
    ("EchoParams", 0xf7, 3),
    ("EchoVolumeFade", 0xf8, 3),
    ("PitchSlide", 0xf9, 3),
    ("PercussionPatchBase", 0xfa, 1),
];

fn fx_s() -> BoxedStrategy<JCmd> {
    (0usize..NAMES.len(), prop::collection::vec(any::<u8>(), 3))
        .prop_map(|(i, mut a)| {
            a.truncate(NAMES[i].2);
            JCmd::Fx(NAMES[i].1, a)
        })
        .boxed()
}

fn dur_s() -> BoxedStrategy<u8> {
    prop_oneof![3 => prop::sample::select(vec![6u8, 12, 24, 48, 96]), 1 => 1u8..=127].boxed()
}

fn cmd_s() -> BoxedStrategy<JCmd> {
    let v = || prop_oneof![2 => Just(None), 3 => prop::sample::select(vec![Some(15u8), Some(7), Some(12)]), 1 => (1u8..16).prop_map(Some)];
    let q = || prop_oneof![2 => Just(None), 3 => Just(Some(7u8)), 1 => (1u8..8).prop_map(Some)];
    let d = || prop_oneof![1 => Just(None), 3 => dur_s().prop_map(Some)];
    prop_oneof![
        8 => (prop_oneof![6 => 0x80u8..=0xc7, 1 => 0xcau8..=0xdf, 3 => 0xa4u8..=0xa8], d(), v(), q()).prop_map(|(n, d, v, q)| JCmd::Note(n, d, v, q)),
        2 => d().prop_map(JCmd::Rest),
        2 => d().prop_map(JCmd::Tie),
        3 => fx_s(),
    ]
    .boxed()
}

pub fn jsong_s(max_voices: usize, max_len: usize) -> BoxedStrategy<JSong> {
    let sub = prop_oneof![12 => prop::collection::vec(cmd_s(), 1..=6), 1 => Just(vec![])];
    let voice_cmd = prop_oneof![8 => cmd_s(), 2 => (any::<u8>(), prop_oneof![4 => 1u8..=4, 1 => 1u8..=255]).prop_map(|(s, n)| JCmd::Call(s, n))];
    let voice = prop_oneof![20 => prop::collection::vec(voice_cmd, 1..=max_len), 1 => Just(vec![])];
    (
        prop::collection::vec(voice, 1..=max_voices),
        prop::collection::vec(sub, 0..=4),
        prop::bool::weighted(0.3),
        prop_oneof![4 => Just(0u8), 1 => 0u8..8],
        any::<bool>(),
        prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..=8)],
    )
        .prop_map(|(voices, subs, subs_first, rot, zeros, pick)| JSong { voices, subs, subs_first, rot, pick, zeros }.fixed())
        .boxed()
}

impl JSong {
    /// Calls refer to existing subroutines; the first timed command of every track says how long it is.
    fn fixed(mut self) -> JSong {
        let n = self.subs.len();
        for v in self.voices.iter_mut() {
            if n == 0 {
                v.retain(|c| !matches!(c, JCmd::Call(..)));
            }
            for c in v.iter_mut() {
                if let JCmd::Call(s, _) = c {
                    *s %= n as u8;
                }
            }
        }
        for t in self.voices.iter_mut().chain(self.subs.iter_mut()) {
            // (a call does not count: what it leaves behind may be nothing)
            for c in t.iter_mut() {
                match c {
                    JCmd::Note(_, d, _, _) | JCmd::Rest(d) | JCmd::Tie(d) => {
                        if d.is_none() {
                            *d = Some(24);
                        }
                        break;
                    }
                    _ => {}
                }
            }
        }
        self
    }

    fn sub_index(&self, s: u8) -> usize {
        s as usize + if self.subs_first { 0 } else { self.voices.len() }
    }

    fn voice_index(&self, v: usize) -> usize {
        v + if self.subs_first { self.subs.len() } else { 0 }
    }

    /// Track indices of the part, in order.
    pub fn part(&self) -> Vec<usize> {
        self.part_voices().into_iter().map(|v| self.voice_index(v)).collect()
    }

    /// Voices in the part's order.
    pub fn part_voices(&self) -> Vec<usize> {
        let n = self.voices.len();
        if self.pick.is_empty() {
            (0..n).map(|v| (v + self.rot as usize) % n).collect()
        } else {
            self.pick.iter().map(|&v| v as usize % n).collect()
        }
    }

    pub fn to_json(&self) -> Value {
        let track = |t: &Vec<JCmd>| -> Value {
            let cmds: Vec<Value> = t
                .iter()
                .map(|c| match c {
                    JCmd::Note(n, d, v, q) => json!({"duration": d, "velocity": v, "sustain": q, "command": {"Note": n}}),
                    JCmd::Rest(d) => json!({"duration": d, "velocity": null, "sustain": null, "command": "Rest"}),
                    JCmd::Tie(d) => json!({"duration": d, "velocity": null, "sustain": null, "command": "Tie"}),
                    JCmd::Fx(op, a) => {
                        let name = NAMES.iter().find(|n| n.1 == *op).unwrap().0;
                        let c = match a.len() {
                            0 => json!(name),
                            1 => json!({ name: a[0] }),
                            _ => json!({ name: a }),
                        };
                        json!({"duration": null, "velocity": null, "sustain": null, "command": c})
                    }
                    JCmd::Call(s, n) => {
                        let z = if self.zeros { Some(0) } else { None };
                        json!({"duration": z, "velocity": z, "sustain": z, "command": {"CallLoop": [self.sub_index(*s), n]}})
                    }
                })
                .collect();
            json!({ "commands": cmds })
        };
        let voices: Vec<Value> = self.voices.iter().map(track).collect();
        let subs: Vec<Value> = self.subs.iter().map(track).collect();
        let tracks: Vec<Value> = if self.subs_first { subs.into_iter().chain(voices).collect() } else { voices.into_iter().chain(subs).collect() };
        json!({"parts": [{"tracks": self.part()}], "tracks": tracks})
    }

    /// What each voice of the part should play.
    pub fn play(&self) -> Vec<Vec<Ev>> {
        let pv = self.part_voices();
        pv.iter()
            .map(|&v| {
                let mut out = vec![];
                if self.voices[v].is_empty() {
                    return out;
                }
                let fx = |op, a: &[u8]| Ev::Cmd { op, args: a.to_vec() };
                if v == pv[0] {
                    out.push(fx(0xfa, &[0x19]));
                    out.push(fx(0xe5, &[0xc8]));
                }
                out.push(fx(0xed, &[0xc8]));
                let mut st = State { dur: None, velq: None };
                self.run(&self.voices[v], &mut st, &mut out);
                out
            })
            .collect()
    }

    fn run(&self, t: &[JCmd], st: &mut State, out: &mut Vec<Ev>) {
        for c in t {
            match c {
                JCmd::Note(n, d, v, q) => {
                    if d.is_some() {
                        st.dur = *d;
                    }
                    let cur = st.velq.unwrap_or(0x7d);
                    let velq = (q.map_or(cur & 0x70, |q| q << 4)) | v.unwrap_or(cur & 0x0f);
                    st.velq = Some(velq);
                    let dur = st.dur.expect("duration");
                    out.push(if *n >= 0xca { Ev::Perc { idx: *n, dur, velq } } else { Ev::Note { pitch: *n, dur, velq } });
                }
                JCmd::Rest(d) | JCmd::Tie(d) => {
                    if d.is_some() {
                        st.dur = *d;
                    }
                    let dur = st.dur.expect("duration");
                    out.push(if matches!(c, JCmd::Rest(_)) { Ev::Rest { dur } } else { Ev::Tie { dur } });
                }
                JCmd::Fx(op, a) => out.push(Ev::Cmd { op: *op, args: a.clone() }),
                JCmd::Call(s, n) => {
                    for _ in 0..*n {
                        // a track starts with the default velocity, and with no duration of its own
                        let mut sub = State { dur: st.dur, velq: None };
                        self.run(&self.subs[*s as usize], &mut sub, out);
                        st.dur = sub.dur;
                        st.velq = sub.velq.or(st.velq);
                    }
                }
            }
        }
    }
}

struct State {
    dur: Option<u8>,
    velq: Option<u8>,
}
