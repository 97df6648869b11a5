//! Structured song generator: motifs, polyphonic lines, sections, mid-song changes.
use crate::smf::{MEv, Smf};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// gap / len in 1/16 units (a unit is 1/24 beat)
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NoteG {
    pub gap: u32,
    pub len: u32,
    pub pitch: u8,
    pub vel: u8,
    /// leave out the note-off if the next note re-strikes the same key immediately
    pub hold: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SegG {
    pub motif: u8,
    pub reps: u16,
    pub transpose: i8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ChangeG {
    Prog(u8),
    Vol(u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Anchor {
    /// start of the n-th note of the song part
    Start(u16),
    End(u16),
    /// n-th note, position in 1/8 of its length
    Mid(u16, u8),
    /// absolute units
    Abs(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ChanG {
    pub ch: u8,
    /// units
    pub start: u32,
    pub prog: u8,
    pub vol: Option<u8>,
    pub lines: Vec<Vec<SegG>>,
    pub changes: Vec<(Anchor, ChangeG)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum NoiseG {
    Text(u8),
    TimeSig,
    KeySig,
    PolyP(u8, u8, u8),
    ChanP(u8, u8),
    Bend(u8, u8, u8),
    Cc(u8, u8, u8),
    SysEx(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SongGen {
    pub tpb: u16,
    pub grid: bool,
    pub motifs: Vec<Vec<NoteG>>,
    pub chans: Vec<ChanG>,
    pub tempos: Vec<(Anchor, u32)>,
    pub noise: Vec<(Anchor, NoiseG)>,
    /// number of MIDI tracks the channels are spread over
    pub ntracks: u8,
    /// note-offs written as note-on with velocity 0
    pub on0: bool,
    pub running: bool,
    /// note-on of the next note written before the note-off of the previous one at the same tick
    pub on_first: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub grid: Option<bool>,
    pub changes: bool,
    pub tempos: bool,
    pub noise: bool,
    pub holds: bool,
    pub drums: bool,
    pub long: bool,
    pub max_chans: usize,
    pub max_lines: usize,
    pub max_segs: usize,
    pub max_reps: u16,
    /// pitch range wide (0..=127) or driver range only
    pub wide_pitch: bool,
    /// keep the sum of line counts at or below eight
    pub fit: bool,
    /// mostly short sections spread out in time, so channels can share voices
    pub sections: bool,
    /// volumes: every channel sets one (Some(true)), none does (Some(false)), or free
    pub vols: Option<bool>,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            grid: None,
            changes: true,
            tempos: true,
            noise: true,
            holds: false,
            drums: true,
            long: true,
            max_chans: 10,
            max_lines: 3,
            max_segs: 5,
            max_reps: 4,
            wide_pitch: true,
            fit: true,
            sections: true,
            vols: None,
        }
    }
}

fn gap_s(grid: bool) -> BoxedStrategy<u32> {
    let u = prop_oneof![
        8 => Just(0u32),
        4 => 1u32..=24,
        2 => 24u32..=130,
        1 => prop::sample::select(vec![48u32, 96, 126, 127, 128, 192, 254, 255, 381, 382]),
        1 => 130u32..=900,
    ];
    fine(u.boxed(), grid)
}

fn len_s(grid: bool) -> BoxedStrategy<u32> {
    let u = prop_oneof![
        8 => 1u32..=48,
        3 => 48u32..=127,
        2 => prop::sample::select(vec![1u32, 12, 24, 48, 96, 120, 126, 127, 128, 129, 192, 253, 254, 255, 256, 381]),
        1 => 128u32..=700,
    ];
    fine(u.boxed(), grid)
}

fn fine(u: BoxedStrategy<u32>, grid: bool) -> BoxedStrategy<u32> {
    if grid {
        u.prop_map(|v| v * 16).boxed()
    } else {
        (u, 0u32..16).prop_map(|(v, j)| v * 16 + j).boxed()
    }
}

pub fn vel_s() -> BoxedStrategy<u8> {
    prop_oneof![3 => prop::sample::select(vec![100u8, 64, 80, 127, 96]), 2 => 1u8..=127, 1 => 1u8..=16].boxed()
}

pub fn pitch_s(wide: bool) -> BoxedStrategy<u8> {
    if wide {
        prop_oneof![
            6 => 36u8..=84,
            3 => 24u8..=95,
            1 => 0u8..=127,
            1 => prop::sample::select(vec![0u8, 11, 12, 23, 24, 95, 96, 97, 98, 103, 104, 108, 119, 120, 127]),
        ]
        .boxed()
    } else {
        prop_oneof![4 => 48u8..=72, 1 => 24u8..=95].boxed()
    }
}

fn note_s(grid: bool, wide: bool, holds: bool) -> BoxedStrategy<NoteG> {
    (gap_s(grid), len_s(grid), pitch_s(wide), vel_s(), if holds { prop::bool::weighted(0.3).boxed() } else { Just(false).boxed() })
        .prop_map(|(gap, len, pitch, vel, hold)| NoteG { gap, len, pitch, vel, hold })
        .boxed()
}

fn drum_pitch() -> BoxedStrategy<u8> {
    prop_oneof![3 => prop::sample::select(vec![38u8, 40, 36, 42, 46, 49, 35, 41, 43]), 1 => 27u8..=87].boxed()
}

pub fn anchor_s() -> BoxedStrategy<Anchor> {
    prop_oneof![
        3 => (0u16..60).prop_map(Anchor::Start),
        2 => (0u16..60).prop_map(Anchor::End),
        3 => (0u16..60, 1u8..8).prop_map(|(n, f)| Anchor::Mid(n, f)),
        2 => prop_oneof![Just(0u32), 1u32..2000].prop_map(Anchor::Abs),
    ]
    .boxed()
}

pub fn noise_s() -> BoxedStrategy<NoiseG> {
    prop_oneof![
        (0u8..=100).prop_map(NoiseG::Text),
        Just(NoiseG::TimeSig),
        Just(NoiseG::KeySig),
        (0u8..16, 0u8..128, 0u8..128).prop_map(|(a, b, c)| NoiseG::PolyP(a, b, c)),
        (0u8..16, 0u8..128).prop_map(|(a, b)| NoiseG::ChanP(a, b)),
        (0u8..16, 0u8..128, 0u8..128).prop_map(|(a, b, c)| NoiseG::Bend(a, b, c)),
        (0u8..16, prop::sample::select(vec![1u8, 2, 6, 8, 10, 11, 32, 38, 39, 64, 66, 67, 71, 84, 91, 93, 100, 101, 121, 126]), 0u8..128)
            .prop_map(|(a, b, c)| NoiseG::Cc(a, b, c)),
        (1u8..40).prop_map(NoiseG::SysEx),
    ]
    .boxed()
}

pub fn tempo_us() -> BoxedStrategy<u32> {
    prop_oneof![3 => prop::sample::select(vec![500_000u32, 600_000, 400_000, 1_000_000, 352_941, 461_538]), 2 => 200_000u32..=3_000_000]
        .boxed()
}

pub fn grid_tpb() -> BoxedStrategy<u16> {
    prop_oneof![
        6 => prop::sample::select(vec![24u16, 48, 72, 96, 120, 192, 240, 384, 480, 960]),
        1 => (1u16..=1300).prop_map(|k| k * 24)
    ]
    .boxed()
}

pub fn any_tpb() -> BoxedStrategy<u16> {
    prop_oneof![
        3 => prop::sample::select(vec![96u16, 120, 192, 240, 384, 480, 960]),
        4 => prop::sample::select(vec![25u16, 50, 100, 110, 128, 160, 180, 200, 220, 256, 400, 500, 512, 768, 1000, 1024, 2560, 10000, 15360, 32767]),
        2 => 24u16..=2000,
        1 => 1u16..=24,
    ]
    .boxed()
}

pub fn song(cfg: Cfg) -> BoxedStrategy<SongGen> {
    let g = match cfg.grid {
        Some(b) => Just(b).boxed(),
        None => any::<bool>().boxed(),
    };
    g.prop_flat_map(move |grid| song_inner(cfg.clone(), grid)).boxed()
}

fn song_inner(cfg: Cfg, grid: bool) -> BoxedStrategy<SongGen> {
    let c = cfg.clone();
    let motifs = prop::collection::vec(prop::collection::vec(note_s(grid, cfg.wide_pitch, cfg.holds), 1..=6), 1..=4);
    let seg = (0u8..4, prop_oneof![3 => Just(1u16), 2 => 1..=cfg.max_reps], prop_oneof![4 => Just(0i8), 1 => -12i8..=12])
        .prop_map(|(motif, reps, transpose)| SegG { motif, reps, transpose });
    let line = prop::collection::vec(seg, 1..=cfg.max_segs);
    let start = {
        let base = if cfg.sections {
            prop_oneof![4 => Just(0u32), 2 => 0u32..=96, 4 => (1u32..=5).prop_map(|s| s * 1536)].boxed()
        } else {
            prop_oneof![3 => Just(0u32), 2 => 0u32..=200].boxed()
        };
        if cfg.long {
            prop_oneof![60 => base, 1 => 31_900u32..=33_500].boxed()
        } else {
            base
        }
    };
    let change = if cfg.changes {
        prop::collection::vec(
            (anchor_s(), prop_oneof![(0u8..128).prop_map(ChangeG::Prog), (0u8..128).prop_map(ChangeG::Vol)]),
            0..=4,
        )
        .boxed()
    } else {
        Just(vec![]).boxed()
    };
    let vol = match cfg.vols {
        Some(true) => (0u8..128).prop_map(Some).boxed(),
        Some(false) => Just(None).boxed(),
        None => prop::option::weighted(0.7, 0u8..128).boxed(),
    };
    let nlines = if cfg.max_lines > 1 {
        prop_oneof![3 => Just(1usize), 2 => 1..=cfg.max_lines].boxed()
    } else {
        Just(1usize).boxed()
    };
    let chan = (start, 0u8..128, vol, nlines.prop_flat_map(move |n| prop::collection::vec(line.clone(), n)), change)
        .prop_map(|(start, prog, vol, lines, changes)| ChanG { ch: 0, start, prog, vol, lines, changes });
    let chans = prop_oneof![1 => prop::collection::vec(chan.clone(), 1..=2), 3 => prop::collection::vec(chan, 1..=cfg.max_chans)];
    let chan_ids = Just((0u8..16).collect::<Vec<u8>>()).prop_shuffle();
    let tempos = if cfg.tempos {
        prop_oneof![1 => Just(vec![]), 3 => prop::collection::vec((anchor_s(), tempo_us()), 1..=4)].boxed()
    } else {
        Just(vec![]).boxed()
    };
    let noise = if cfg.noise {
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((anchor_s(), noise_s()), 1..=4)].boxed()
    } else {
        Just(vec![]).boxed()
    };
    let tpb = if grid { grid_tpb() } else { any_tpb() };
    let dpitch = prop::collection::vec(drum_pitch(), 8);
    (tpb, motifs, chans, chan_ids, tempos, noise, 1u8..=6, any::<bool>(), any::<bool>(), prop::bool::weighted(0.2), dpitch, prop::bool::weighted(0.3))
        .prop_map(move |(tpb, mut motifs, mut chans, ids, tempos, noise, ntracks, on0, running, on_first, dpitch, want_drums)| {
            let mut budget = 8usize;
            for (i, ch) in chans.iter_mut().enumerate() {
                ch.ch = ids[i];
                if c.fit && !c.sections {
                    ch.lines.truncate(budget.max(1));
                    budget = budget.saturating_sub(ch.lines.len());
                }
            }
            if c.fit && !c.sections {
                // drop channels beyond the voice budget
                let mut used = 0;
                chans.retain(|ch| {
                    used += ch.lines.len();
                    used <= 8
                });
            }
            if c.drums && want_drums && !chans.iter().any(|k| k.ch == 9) {
                chans[0].ch = 9;
            }
            if !c.drums {
                for k in chans.iter_mut() {
                    if k.ch == 9 {
                        k.ch = ids[15];
                    }
                }
            }
            // drum motif: keys from the drum map
            if chans.iter().any(|k| k.ch == 9) {
                let k = motifs.len() - 1;
                for (i, n) in motifs[k].iter_mut().enumerate() {
                    n.pitch = dpitch[i % 8];
                }
            }
            SongGen { tpb, grid, motifs, chans, tempos, noise, ntracks, on0, running, on_first }
        })
        .boxed()
}

#[derive(Clone, Debug)]
struct Placed {
    start: u32,
    end: u32,
    pitch: u8,
    vel: u8,
    no_off: bool,
}

impl SongGen {
    fn tick(&self, fine: u64) -> u32 {
        (fine * self.tpb as u64 / 384) as u32
    }

    fn place(&self, c: &ChanG) -> Vec<Vec<Placed>> {
        let minlen = (self.tpb as u32 + 23) / 24;
        let nl = c.lines.len() as u8;
        c.lines
            .iter()
            .enumerate()
            .map(|(li, segs)| {
                let mut at = c.start as u64 * 16;
                let mut last_end = 0u32;
                let mut out: Vec<Placed> = vec![];
                let mut flat: Vec<(NoteG, i8)> = vec![];
                for s in segs {
                    for _ in 0..s.reps {
                        for n in &self.motifs[s.motif as usize % self.motifs.len()] {
                            flat.push((n.clone(), s.transpose));
                        }
                    }
                }
                let key = |n: &NoteG, tr: i8| -> u8 {
                    let tr = if c.ch == 9 { 0 } else { tr };
                    let p = (n.pitch as i32 + tr as i32).max(0).min(127) as u8;
                    let q = (p / nl) * nl + li as u8;
                    if q > 127 {
                        q - nl
                    } else {
                        q
                    }
                };
                for i in 0..flat.len() {
                    let (n, tr) = &flat[i];
                    at += n.gap as u64;
                    let st = self.tick(at).max(last_end);
                    at += n.len as u64;
                    let en = self.tick(at).max(st + minlen);
                    let pitch = key(n, *tr);
                    let no_off = n.hold
                        && flat.get(i + 1).map_or(false, |(m, t2)| {
                            m.gap == 0 && key(m, *t2) == pitch && self.tick(at).max(last_end) == en
                        });
                    out.push(Placed { start: st, end: en, pitch, vel: n.vel, no_off });
                    last_end = en;
                }
                out
            })
            .collect()
    }

    fn anchor(&self, a: Anchor, notes: &[Placed]) -> u32 {
        let pick = |n: u16| notes.get(n as usize % notes.len().max(1));
        match a {
            Anchor::Start(n) => pick(n).map_or(0, |p| p.start),
            Anchor::End(n) => pick(n).map_or(0, |p| p.end),
            Anchor::Mid(n, f) => pick(n).map_or(0, |p| {
                if self.grid {
                    let u = self.tpb as u32 / 24;
                    p.start + ((p.end - p.start) / u * f as u32 / 8) * u
                } else {
                    p.start + ((p.end - p.start) as u64 * f as u64 / 8) as u32
                }
            }),
            Anchor::Abs(u) => self.tick(u as u64 * 16),
        }
    }

    pub fn note_count(&self) -> usize {
        self.chans
            .iter()
            .flat_map(|c| c.lines.iter())
            .flat_map(|l| l.iter())
            .map(|s| s.reps as usize * self.motifs[s.motif as usize % self.motifs.len()].len())
            .sum()
    }

    pub fn compile(&self) -> Smf {
        // (tick, class, serial, event); class orders events of one tick inside a track
        let nt = (self.ntracks as usize).max(1).min(self.chans.len().max(1));
        let mut tracks: Vec<Vec<(u32, u8, usize, MEv)>> = vec![vec![]; nt];
        let mut all: Vec<Placed> = vec![];
        let mut serial = 0usize;
        for (ci, c) in self.chans.iter().enumerate() {
            let t = ci % nt;
            let ch = c.ch;
            let lines = self.place(c);
            let mut flat: Vec<Placed> = lines.iter().flatten().cloned().collect();
            flat.sort_by_key(|p| p.start);
            let mut put = |tick: u32, class: u8, e: MEv| {
                serial += 1;
                tracks[t].push((tick, class, serial, e));
            };
            put(0, 1, MEv::Prog { ch, prog: c.prog });
            if let Some(v) = c.vol {
                put(0, 1, MEv::Cc { ch, ctl: 7, val: v });
            }
            for p in &flat {
                put(p.start, if self.on_first { 2 } else { 3 }, MEv::On { ch, note: p.pitch, vel: p.vel });
                if !p.no_off {
                    // a same-key note-off always precedes the next note-on of that key in the file
                    let clash = flat.iter().any(|o| o.start == p.end && o.pitch == p.pitch);
                    let class = if self.on_first && !clash { 4 } else { 0 };
                    put(
                        p.end,
                        class,
                        if self.on0 { MEv::On { ch, note: p.pitch, vel: 0 } } else { MEv::Off { ch, note: p.pitch, vel: 64 } },
                    );
                }
            }
            for (a, k) in &c.changes {
                let at = self.anchor(*a, &flat);
                put(
                    at,
                    1,
                    match *k {
                        ChangeG::Prog(p) => MEv::Prog { ch, prog: p },
                        ChangeG::Vol(v) => MEv::Cc { ch, ctl: 7, val: v },
                    },
                );
            }
            all.extend(flat);
        }
        all.sort_by_key(|p| p.start);
        for (i, (a, us)) in self.tempos.iter().enumerate() {
            let at = self.anchor(*a, &all);
            serial += 1;
            // mostly in the first track, but they may be in any
            let t = if (*us as usize + i) % 3 == 0 { (*us as usize / 3 + i) % nt } else { 0 };
            tracks[t].push((at, 1, serial, MEv::Tempo(*us)));
        }
        for (i, (a, n)) in self.noise.iter().enumerate() {
            let at = self.anchor(*a, &all);
            let e = match *n {
                NoiseG::Text(n) => MEv::Meta(1, vec![b'x'; n as usize]),
                NoiseG::TimeSig => MEv::Meta(0x58, vec![4, 2, 24, 8]),
                NoiseG::KeySig => MEv::Meta(0x59, vec![1, 0]),
                NoiseG::PolyP(ch, note, val) => MEv::PolyP { ch, note, val },
                NoiseG::ChanP(ch, val) => MEv::ChanP { ch, val },
                NoiseG::Bend(ch, lo, hi) => MEv::Bend { ch, lo, hi },
                NoiseG::Cc(ch, ctl, val) => MEv::Cc { ch, ctl, val },
                NoiseG::SysEx(n) => MEv::SysEx(vec![0x11; n as usize]),
            };
            serial += 1;
            tracks[i % nt].push((at, 1, serial, e));
        }
        for t in tracks.iter_mut() {
            t.sort_by_key(|e| (e.0, e.1, e.2));
        }
        Smf {
            format: 1,
            tpb: self.tpb,
            tracks: tracks.into_iter().map(|t| t.into_iter().map(|e| (e.0, e.3)).collect()).collect(),
            running: self.running,
        }
    }
}

/// A step of an event-level song: wait, then strike or release a key or change something.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    On(u8, u8),
    Off(u8),
    /// strike and release at once
    Tap(u8, u8),
    Prog(u8),
    Vol(u8),
}

/// Songs written event by event: keys struck again while they sound, notes of no or hardly any length,
/// stray note-offs, several events at one tick.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Soup {
    pub tpb: u16,
    /// channel, lowest key, steps
    pub chans: Vec<(u8, u8, Vec<(u16, Act)>)>,
    pub on0: bool,
}

impl Soup {
    pub fn compile(&self) -> Smf {
        let mut tracks = vec![];
        for (ch, low, steps) in &self.chans {
            let ch = *ch;
            let mut t = 0u32;
            let mut out: Vec<(u32, MEv)> = vec![];
            // key -> (struck at, was sounding then)
            let mut on: std::collections::BTreeMap<u8, (u32, bool)> = Default::default();
            let off = |note: u8| if self.on0 { MEv::On { ch, note, vel: 0 } } else { MEv::Off { ch, note, vel: 64 } };
            for (dt, a) in steps {
                t += *dt as u32;
                match *a {
                    Act::On(k, vel) | Act::Tap(k, vel) => {
                        let key = (low + k).min(127);
                        let again = match on.get(&key) {
                            Some(&(at, again)) => at < t || again,
                            None => false,
                        };
                        on.insert(key, (t, again));
                        out.push((t, MEv::On { ch, note: key, vel: vel.max(1) }));
                        if let Act::Tap(..) = a {
                            // at the tick of a re-strike a note-off would be the older note's
                            if again {
                                t += 1;
                            }
                            on.remove(&key);
                            out.push((t, off(key)));
                        }
                    }
                    Act::Off(k) => {
                        let key = (low + k).min(127);
                        match on.remove(&key) {
                            // the note-off of the note that was struck again at this very tick
                            Some((at, true)) if at == t => {
                                on.insert(key, (t, false));
                            }
                            _ => {}
                        }
                        out.push((t, off(key)));
                    }
                    Act::Prog(prog) => out.push((t, MEv::Prog { ch, prog })),
                    Act::Vol(val) => out.push((t, MEv::Cc { ch, ctl: 7, val })),
                }
            }
            for (key, (at, again)) in on {
                if again && at == t {
                    t += 1;
                }
                out.push((t, off(key)));
            }
            tracks.push(out);
        }
        Smf { format: 1, tpb: self.tpb, tracks, running: false }
    }
}

pub fn soup(max_keys: u8, max_chans: usize, max_steps: usize) -> BoxedStrategy<Soup> {
    let tpb = prop_oneof![
        2 => Just(24u16),
        3 => prop::sample::select(vec![48u16, 96, 120, 480, 960]),
        2 => prop::sample::select(vec![1u16, 5, 12, 25, 100, 128, 1000]),
    ];
    let dt = prop_oneof![
        5 => Just(0u16),
        5 => 1u16..=4,
        3 => 5u16..=60,
        1 => 60u16..=700,
    ];
    let act = prop_oneof![
        5 => (0..max_keys, vel_s()).prop_map(|(k, v)| Act::On(k, v)),
        5 => (0..max_keys).prop_map(Act::Off),
        2 => (0..max_keys, vel_s()).prop_map(|(k, v)| Act::Tap(k, v)),
        1 => (0u8..128).prop_map(Act::Prog),
        1 => (0u8..128).prop_map(Act::Vol),
    ];
    let steps = prop::collection::vec((dt, act), 1..=max_steps);
    let chan = (prop_oneof![4 => 24u8..=90, 1 => 0u8..=127, 1 => Just(36u8)], steps);
    let ids = Just((0u8..16).collect::<Vec<u8>>()).prop_shuffle();
    (tpb, prop::collection::vec(chan, 1..=max_chans), ids, any::<bool>(), prop::bool::weighted(0.2))
        .prop_map(|(tpb, chans, ids, on0, drums)| Soup {
            tpb,
            chans: chans
                .into_iter()
                .enumerate()
                .map(|(i, (low, s))| (if i == 0 && drums { 9 } else { ids[i] }, low, s))
                .collect::<Vec<_>>(),
            on0,
        })
        .prop_map(|mut s| {
            // a channel once only
            let mut seen = [false; 16];
            s.chans.retain(|c| !std::mem::replace(&mut seen[c.0 as usize], true));
            s
        })
        .boxed()
}
