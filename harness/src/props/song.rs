//! C01..C05, C12, C14, C16: MIDI -> driver bytes.
use crate::gen::*;
use crate::perf::*;
use crate::runner::*;
use crate::smf::*;
use crate::spc::*;
use crate::sut::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// A generated song or one of the repository's sample files.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src {
    Gen(SongGen),
    Sample(String),
    Soup(Soup),
    /// a song with portamento controls
    Porta(SongGen, Vec<Ctl>),
    /// a song whose tracks begin at the edges of 8 KiB blocks of the file
    Edge(SongGen, Vec<(u8, u8)>),
}

/// A portamento control: which channel of the song, where, which control, its value.
pub type Ctl = (u8, Anchor, u8, u8);

/// The song with the controls put in, and the channels that switch portamento.
pub fn add_portamento(g: &SongGen, ctl: &[Ctl]) -> (Smf, Vec<u8>) {
    let mut smf = g.compile();
    let plain = expect(&smf);
    let mut using = vec![];
    for &(k, a, which, val) in ctl {
        let ch = g.chans[k as usize % g.chans.len()].ch;
        let notes: Vec<&ExpNote> = plain.notes.iter().filter(|n| n.ch == ch).collect();
        let u = (plain.tpb as u32 / 24).max(1);
        let at = match a {
            Anchor::Start(n) => notes.get(n as usize % notes.len().max(1)).map_or(0, |n| n.start),
            Anchor::End(n) => notes.get(n as usize % notes.len().max(1)).map_or(0, |n| n.end),
            Anchor::Mid(n, _) => notes.get(n as usize % notes.len().max(1)).map_or(0, |n| (n.start + n.end) / 2 / u * u),
            Anchor::Abs(t) => (t * u).min(plain.end),
        };
        let t = smf.tracks.iter_mut().find(|t| t.iter().any(|e| channel_of(&e.1) == Some(ch))).unwrap();
        let i = t.iter().position(|e| e.0 > at).unwrap_or(t.len());
        let (ctl, val) = match which % 4 {
            0 | 1 => (65, if val > 30 { 127 } else { 0 }),
            2 => (37, val),
            _ => (5, val % 3),
        };
        if ctl == 65 {
            using.push(ch);
        }
        t.insert(i, (at, MEv::Cc { ch, ctl, val }));
    }
    (smf, using)
}

pub fn channel_of(e: &MEv) -> Option<u8> {
    match *e {
        MEv::Off { ch, .. } | MEv::On { ch, .. } | MEv::PolyP { ch, .. } | MEv::Cc { ch, .. } | MEv::Prog { ch, .. } | MEv::ChanP { ch, .. } | MEv::Bend { ch, .. } => Some(ch),
        _ => None,
    }
}

/// Portamento controls: often on from the beginning.
pub fn ctl_s() -> BoxedStrategy<Vec<Ctl>> {
    let any_ctl = prop::collection::vec((any::<u8>(), anchor_s(), any::<u8>(), 0u8..128), 1..=8);
    let on = prop::collection::vec(any::<u8>(), 0..=3);
    (on, any_ctl).prop_map(|(on, c)| on.into_iter().map(|k| (k, Anchor::Abs(0), 0, 127)).chain(c).collect()).boxed()
}

pub fn porta_s(_: Tier) -> BoxedStrategy<Src> {
    (song(Cfg { grid: Some(true), long: false, holds: true, max_reps: 6, ..Default::default() }), ctl_s()).prop_map(|(g, c)| Src::Porta(g, c)).boxed()
}

/// A note reached by a slide has the loudness of the voice: give it that of the note it stands for.
fn adopt(x: &Expected, ob: &mut Observed) {
    // eighths of a unit
    let mut left: BTreeMap<(u64, u8), Vec<(u64, u8)>> = BTreeMap::new();
    for n in x.notes.iter().filter(|n| n.end > n.start) {
        left.entry((n.start as u64 * 24 / x.tpb as u64, n.pitch)).or_default().push(((n.end - n.start) as u64 * 192 / x.tpb as u64, velnib(n.vel)));
    }
    let len = |n: &OutNote| if n.q >= 7 { n.slot * 8 } else { n.slot * n.q as u64 };
    for n in ob.notes.iter().filter(|n| !n.slid) {
        if let Some(v) = left.get_mut(&(n.start, n.pitch)) {
            if let Some(i) = (0..v.len()).filter(|&i| v[i].1 == n.vel).min_by_key(|&i| v[i].0.abs_diff(len(n))) {
                v.remove(i);
            }
        }
    }
    left.values_mut().for_each(|v| v.sort());
    let mut slid: Vec<&mut OutNote> = ob.notes.iter_mut().filter(|n| n.slid).collect();
    slid.sort_by_key(|n| std::cmp::Reverse(len(n)));
    for n in slid {
        if let Some((_, v)) = left.get_mut(&(n.start, n.pitch)).and_then(|v| v.pop()) {
            n.vel = v;
        }
    }
}

/// Files of several blocks whose tracks begin at the edges of blocks.
pub fn edge_s(_: Tier) -> BoxedStrategy<Src> {
    let edge = (any::<u8>(), prop_oneof![3 => 1u8..=3, 1 => 0u8..=12]);
    (song(Cfg { max_segs: 3, long: false, ..Default::default() }), prop::collection::vec(edge, 1..=4)).prop_map(|(g, e)| Src::Edge(g, e)).boxed()
}

pub fn samples() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir("/repo/sample")
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).filter(|n| n.ends_with(".mid")).collect())
        .unwrap_or_default();
    v.sort();
    v
}

pub fn sample_cases(_: Tier) -> Vec<Src> {
    samples().into_iter().map(Src::Sample).collect()
}

impl Src {
    /// None: a file this domain leaves out
    pub fn load(&self) -> Option<(Smf, Vec<u8>)> {
        match self {
            Src::Gen(g) => {
                let s = g.compile();
                let b = encode(&s);
                Some((s, b))
            }
            Src::Soup(g) => {
                let s = g.compile();
                let b = encode(&s);
                Some((s, b))
            }
            Src::Porta(g, c) => {
                let s = add_portamento(g, c).0;
                let b = encode(&s);
                Some((s, b))
            }
            Src::Edge(g, e) => {
                let mut s = g.compile();
                to_edges(&mut s, e);
                let b = encode(&s);
                Some((s, b))
            }
            Src::Sample(n) => {
                let b = std::fs::read(std::path::Path::new("/repo/sample").join(n)).ok()?;
                let s = parse(&b).ok()?;
                if s.format != 1 || s.tpb >= 0x8000 {
                    return None;
                }
                Some((s, b))
            }
        }
    }
}

/// Converts; Ok(None) when the file legitimately needs more than eight voices.
pub fn conv(bytes: &[u8], x: &Expected, factor: f32, optimize: bool) -> Result<Option<SongImage>, String> {
    match convert_midi(bytes, factor, optimize) {
        Outcome::Ok(i) => Ok(Some(i)),
        Outcome::Err(e) if x.peak_sum > 8 => {
            let _ = e;
            Ok(None)
        }
        Outcome::Err(e) => Err(format!("conversion of a {}-voice song failed: {}", x.peak_sum, e)),
        Outcome::Panic(p) => Err(format!("conversion panicked: {}", p)),
    }
}

pub fn describe(p: &Played, at: usize) -> String {
    let lo = at.saturating_sub(3);
    format!("{:?}", &p.evs[lo..(at + 4).min(p.evs.len())])
}

/// Two playbacks are the same if every voice yields the same events.
pub fn same_playback(a: &[Played], b: &[Played], an: &str, bn: &str) -> Verdict {
    if a.len() != b.len() {
        return Err(format!("{} has {} voices, {} has {}", an, a.len(), bn, b.len()));
    }
    for (v, (x, y)) in a.iter().zip(b).enumerate() {
        if x.evs != y.evs {
            let i = x.evs.iter().zip(&y.evs).position(|(p, q)| p != q).unwrap_or(x.evs.len().min(y.evs.len()));
            return Err(format!(
                "voice {} differs at event {} (of {} / {}): {} plays {} where {} plays {}",
                v,
                i,
                x.evs.len(),
                y.evs.len(),
                an,
                describe(x, i),
                bn,
                describe(y, i)
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C01

fn c01_check(c: &Src, o: &mut Obs) -> Verdict {
    let Some((smf, bytes)) = c.load() else { return Ok(()) };
    let x = expect(&smf);
    let a = conv(&bytes, &x, 0.2, false)?;
    let b = conv(&bytes, &x, 0.2, true)?;
    let (Some(a), Some(b)) = (&a, &b) else {
        return if a.is_some() != b.is_some() { Err("optimisation changes whether the song converts".into()) } else { Ok(()) };
    };
    let pa = a.play_all().map_err(|e| format!("unoptimised: {}", e))?;
    let pb = b.play_all().map_err(|e| format!("optimised: {}", e))?;
    same_playback(&pa, &pb, "unoptimised", "optimised")?;
    let calls: usize = pb.iter().map(|p| p.calls.len()).sum();
    o.nontrivial = calls >= 2;
    o.when(calls > 0, "has calls");
    o.when(pb.iter().any(|p| p.calls.iter().any(|&r| r > 1)), "call with repeat count > 1");
    o.when(b.tracks.len() > b.part.len() + 1, "two or more subroutines");
    o.when(pb.iter().filter(|p| !p.calls.is_empty()).count() > 1, "calls from two voices");
    o.when(pb.iter().any(|p| p.calls.iter().any(|&r| r > 100)), "call repeated > 100 times");
    Ok(())
}

/// Songs over a tiny alphabet: dense self-overlap, which is what the sequence search has to get right.
pub fn tiny_alphabet(t: Tier) -> BoxedStrategy<Src> {
    let n = if t == Tier::Quick { 70 } else { 160 };
    let note = prop_oneof![
        4 => (Just(0u32), Just(16u32 * 12)),
        1 => (Just(0u32), Just(16u32 * 6)),
        1 => (Just(16u32 * 12), Just(16u32 * 12)),
        1 => (Just(16u32 * 200), Just(16u32 * 12)),
        1 => (Just(0u32), Just(16u32 * 150)),
    ];
    let letter = (note, prop::sample::select(vec![60u8, 62]), prop::sample::select(vec![100u8, 60]))
        .prop_map(|((gap, len), pitch, vel)| NoteG { gap, len, pitch, vel, hold: false });
    let motifs = prop::collection::vec(prop::collection::vec(letter, 1..=3), 1..=3);
    let seg = (0u8..3, prop_oneof![3 => Just(1u16), 2 => 2u16..=6]).prop_map(|(motif, reps)| SegG { motif, reps, transpose: 0 });
    let line = prop::collection::vec(seg, 4..=n / 4);
    let change = prop::collection::vec((anchor_s(), prop_oneof![(0u8..3).prop_map(ChangeG::Prog), (90u8..92).prop_map(ChangeG::Vol)]), 0..=3);
    let chan = (prop::collection::vec(line, 1..=2), change)
        .prop_map(|(lines, changes)| ChanG { ch: 0, start: 0, prog: 0, vol: Some(100), lines, changes });
    (motifs, prop::collection::vec(chan, 1..=3))
        .prop_map(|(motifs, mut chans)| {
            for (i, c) in chans.iter_mut().enumerate() {
                c.ch = i as u8;
            }
            Src::Gen(SongGen {
                tpb: 96,
                grid: true,
                motifs,
                chans,
                tempos: vec![],
                noise: vec![],
                ntracks: 1,
                on0: false,
                running: false,
                on_first: false,
            })
        })
        .boxed()
}

fn rich(t: Tier) -> BoxedStrategy<Src> {
    let mut c = Cfg { max_reps: 6, ..Default::default() };
    if t == Tier::Thorough {
        c.max_segs = 8;
        c.max_reps = 10;
    }
    song(c).prop_map(Src::Gen).boxed()
}

/// One motif repeated hundreds of times, around the one-byte repeat count.
pub fn many_repeats(_: Tier) -> BoxedStrategy<Src> {
    let motif = prop::collection::vec(
        (prop::sample::select(vec![0u32, 16 * 12]), prop::sample::select(vec![16u32 * 12, 16 * 6]), 60u8..64)
            .prop_map(|(gap, len, pitch)| NoteG { gap, len, pitch, vel: 100, hold: false }),
        1..=2,
    );
    let reps = prop_oneof![3 => 250u16..=262, 1 => 505u16..=520, 1 => 262u16..=600];
    (motif, reps, 0u16..3, prop::bool::ANY)
        .prop_map(|(m, reps, tail, two)| {
            let seg = |motif, reps| SegG { motif, reps, transpose: 0 };
            let mut line = vec![seg(0, reps)];
            if tail > 0 {
                line.push(seg(1, tail));
                if two {
                    line.push(seg(0, 5));
                }
            }
            let mut m2 = m.clone();
            for n in m2.iter_mut() {
                n.pitch += 5;
            }
            Src::Gen(SongGen {
                tpb: 48,
                grid: true,
                motifs: vec![m, m2],
                chans: vec![ChanG { ch: 0, start: 0, prog: 0, vol: None, lines: vec![line], changes: vec![] }],
                tempos: vec![],
                noise: vec![],
                ntracks: 1,
                on0: false,
                running: false,
                on_first: false,
            })
        })
        .boxed()
}

// ---------------------------------------------------------------- C02

fn sound_of(c: &Src, factor: f32, optimize: bool) -> Result<Option<(Expected, Observed, Vec<Played>)>, String> {
    let Some((smf, bytes)) = c.load() else { return Ok(None) };
    let x = expect(&smf);
    let Some(img) = conv(&bytes, &x, factor, optimize)? else { return Ok(None) };
    let p = img.play_all()?;
    let mut obs = observe(&p)?;
    if obs.slides > 0 {
        adopt(&x, &mut obs);
    }
    Ok(Some((x, obs, p)))
}

fn velnib(v: u8) -> u8 {
    (v / 8).max(1)
}

fn content_check(x: &Expected, ob: &Observed) -> Verdict {
    let mut count: BTreeMap<(u8, u8), i64> = BTreeMap::new();
    for n in x.notes.iter().filter(|n| n.end > n.start) {
        *count.entry((n.pitch, velnib(n.vel))).or_default() += 1;
    }
    for n in &ob.notes {
        *count.entry((n.pitch, n.vel)).or_default() -= 1;
    }
    let missing: Vec<_> = count.iter().filter(|(_, &c)| c > 0).collect();
    let extra: Vec<_> = count.iter().filter(|(_, &c)| c < 0).collect();
    if missing.is_empty() && extra.is_empty() {
        Ok(())
    } else {
        Err(format!(
            "{} notes in the file, {} played; missing (pitch byte, velocity): {:?}; not in the file: {:?}",
            x.notes.len(),
            ob.notes.len(),
            missing,
            extra
        ))
    }
}

fn c02_check(c: &Src, o: &mut Obs) -> Verdict {
    let Some((x, ob, _)) = sound_of(c, 0.2, true)? else { return Ok(()) };
    content_check(&x, &ob)?;
    o.nontrivial = x.notes.len() >= 5 && x.peak >= 2;
    o.when(x.channels > 1, "several channels");
    o.when(x.peak > x.channels, "chords");
    o.when(x.restrikes > 0, "re-struck keys");
    o.when(zero_length(&c.load().unwrap().0), "notes of no length");
    o.when(x.notes.iter().any(|n| n.vel < 8), "velocity below 8");
    o.when(x.notes.iter().any(|n| (n.end - n.start) * 24 > 127 * x.tpb as u32), "note longer than 127 units");
    o.when(x.notes.iter().any(|n| ((n.end - n.start) as u64 * 24) < x.tpb as u64), "note shorter than a unit");
    o.when(x.channels > ob.totals.len(), "channels share a voice");
    Ok(())
}

fn c02_strategy(_: Tier) -> BoxedStrategy<Src> {
    song(Cfg { holds: true, ..Default::default() }).prop_map(Src::Gen).boxed()
}

fn zero_length(s: &Smf) -> bool {
    s.tracks.iter().any(|t| {
        let mut last: BTreeMap<(u8, u8), u32> = BTreeMap::new();
        t.iter().any(|(at, e)| match *e {
            MEv::Off { ch, note, .. } | MEv::On { ch, note, vel: 0 } => last.remove(&(ch, note)) == Some(*at),
            MEv::On { ch, note, .. } => {
                last.entry((ch, note)).or_insert(*at);
                false
            }
            _ => false,
        })
    })
}

fn soup_s(_: Tier) -> BoxedStrategy<Src> {
    prop_oneof![
        3 => soup(3, 3, 40),
        2 => soup(2, 5, 25),
        1 => soup(8, 1, 60),
    ]
    .prop_map(Src::Soup)
    .boxed()
}

/// Event soups whose ticks are whole driver units.
fn soup_grid(_: Tier) -> BoxedStrategy<Src> {
    (prop_oneof![2 => soup(3, 4, 40), 1 => soup(2, 6, 25), 1 => soup(8, 1, 60)], prop_oneof![6 => Just(24u16), 2 => Just(12u16), 1 => Just(8u16), 1 => Just(3u16)])
        .prop_map(|(mut s, tpb)| {
            s.tpb = tpb;
            Src::Soup(s)
        })
        .boxed()
}

// ---------------------------------------------------------------- C03

fn units(t: u32, tpb: u16) -> f64 {
    t as f64 * 24.0 / tpb as f64
}

fn timing_check(x: &Expected, ob: &Observed, exact: bool) -> Verdict {
    let mut want: BTreeMap<(u8, u8), Vec<(f64, f64)>> = BTreeMap::new();
    for n in x.notes.iter().filter(|n| n.end > n.start) {
        want.entry((n.pitch, velnib(n.vel))).or_default().push((units(n.start, x.tpb), units(n.end, x.tpb)));
    }
    let mut got: BTreeMap<(u8, u8), Vec<(f64, &OutNote)>> = BTreeMap::new();
    for n in &ob.notes {
        got.entry((n.pitch, n.vel)).or_default().push((n.start as f64, n));
    }
    let tol = if exact { 0.0 } else { 1.0 };
    for (k, w) in want.iter_mut() {
        w.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let Some(g) = got.get_mut(k) else { return Err(format!("no note with pitch {:02x} velocity {}", k.0, k.1)) };
        g.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        if w.len() != g.len() {
            return Err(format!("{} notes with pitch {:02x} velocity {} instead of {}", g.len(), k.0, k.1, w.len()));
        }
        for (a, b) in w.iter().zip(g.iter()) {
            if (a.0 - b.0).abs() > tol + 1e-6 {
                return Err(format!(
                    "note pitch {:02x} velocity {} should start at {:.3} units, starts at {} (voice {})",
                    k.0, k.1, a.0, b.0, b.1.voice
                ));
            }
        }
        if exact {
            // lengths: match within the group of notes sharing start, pitch and velocity
            let mut i = 0;
            while i < w.len() {
                let mut j = i;
                while j < w.len() && w[j].0 == w[i].0 {
                    j += 1;
                }
                let mut lens: Vec<f64> = w[i..j].iter().map(|a| a.1 - a.0).collect();
                lens.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let mut outs: Vec<&OutNote> = g[i..j].iter().map(|b| b.1).collect();
                outs.sort_by(|a, b| (a.sounding().1).partial_cmp(&b.sounding().1).unwrap());
                for (l, n) in lens.iter().zip(outs.iter()) {
                    let (lo, hi) = n.sounding();
                    // two notes of one group may swap when their ranges overlap; the range test is per pair
                    if (*l < lo - 1e-6 || *l > hi + 1e-6) && j - i == 1 {
                        return Err(format!(
                            "note pitch {:02x} velocity {} at {} should sound {} units, slot {} gate {} sounds {}..{}",
                            k.0, k.1, n.start, l, n.slot, n.q, lo, hi
                        ));
                    }
                }
                i = j;
            }
        } else if w.len() == 1 {
            let l = w[0].1 - w[0].0;
            let (lo, hi) = g[0].1.sounding();
            if l < lo - 2.0 || l > hi + 2.0 {
                return Err(format!("note pitch {:02x} velocity {} at {:.2} should sound {:.3} units, sounds {}..{}", k.0, k.1, w[0].0, l, lo, hi));
            }
        }
    }
    Ok(())
}

/// One voice with notes shorter than a unit: they take a unit, and delay what follows by no more than that.
fn short_check(x: &Expected, ob: &Observed) -> Verdict {
    let want: Vec<&ExpNote> = x.notes.iter().filter(|n| n.end > n.start).collect();
    if ob.notes.len() != want.len() {
        return Err(format!("{} notes instead of {}", ob.notes.len(), want.len()));
    }
    let mut busy = 0.0f64;
    for (i, (n, g)) in want.iter().zip(&ob.notes).enumerate() {
        let (s, e) = (units(n.start, x.tpb), units(n.end, x.tpb));
        let latest = busy.max(s + 1.0);
        if g.pitch != n.pitch || (g.start as f64) <= s - 1.0 - 1e-6 || (g.start as f64) > latest + 1e-6 {
            return Err(format!(
                "note {} pitch {:02x} should start at {:.3} units, at {:.3} at the latest; note {} pitch {:02x} starts at {}",
                i, n.pitch, s, latest, i, g.pitch, g.start
            ));
        }
        let longest = (e - s).ceil().max(1.0) + 1.0;
        if g.q == 7 && g.slot as f64 > longest / 0.875 + 1.0 {
            return Err(format!("note {} at {} should sound {:.3} units, takes {} at gate 7", i, g.start, e - s, g.slot));
        }
        busy = (e + 1.0).floor().max((latest + 1.0).floor());
    }
    let end = units(x.end, x.tpb);
    for &t in &ob.totals {
        if (t as f64) < end - 1.0 - 1e-6 || t as f64 > busy.max(end + 1.0) + 1e-6 {
            return Err(format!("the song is {:.3} units long, its track {} (at most {} expected)", end, t, busy.max(end + 1.0)));
        }
    }
    Ok(())
}

/// A song in frames per second and ticks per frame.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FramesCase {
    g: SongGen,
    fps: u8,
    per_frame: u8,
    optimize: bool,
}

fn frames_check(c: &FramesCase, o: &mut Obs) -> Verdict {
    let mut smf = c.g.compile();
    if c.fps == 0 {
        // in beats: converts like any other
        smf.tpb = 0x7f00 | c.per_frame as u16;
    } else {
        smf.tpb = ((256 - c.fps as u16) << 8) | c.per_frame as u16;
    }
    let bytes = encode(&smf);
    let r = convert_midi(&bytes, 0.2, c.optimize);
    o.nontrivial = c.fps > 0;
    match r {
        Outcome::Ok(_) if c.fps > 0 => {
            Err(format!("a file with time division {:04x} ({} frames a second) is converted as if it had {} ticks in a beat", smf.tpb, c.fps, smf.tpb))
        }
        Outcome::Ok(_) => {
            o.label("most ticks in a beat");
            Ok(())
        }
        _ => Ok(()),
    }
}

fn frames_s(_: Tier) -> BoxedStrategy<FramesCase> {
    let g = song(Cfg { max_segs: 2, long: false, ..Default::default() });
    (g, prop::sample::select(vec![0u8, 24, 25, 29, 30]), prop_oneof![prop::sample::select(vec![1u8, 4, 8, 10, 24, 40, 80, 96, 100]), any::<u8>()], any::<bool>())
        .prop_map(|(g, fps, per_frame, optimize)| FramesCase { g, fps, per_frame, optimize })
        .boxed()
}

fn soup_short(_: Tier) -> BoxedStrategy<Src> {
    (soup(1, 1, 80), prop::sample::select(vec![48u16, 50, 96, 100, 120, 192, 480, 960, 1000]))
        .prop_map(|(mut s, tpb)| {
            s.tpb = tpb;
            s.chans[0].0 = 0;
            Src::Soup(s)
        })
        .boxed()
}

/// Next to no time, and often nothing but settings.
fn instant_s(_: Tier) -> BoxedStrategy<Src> {
    (soup(3, 3, 6), any::<bool>())
        .prop_map(|(mut s, settings)| {
            for c in &mut s.chans {
                for step in &mut c.2 {
                    step.0 = step.0.min(1);
                    if settings {
                        step.0 = 0;
                        if let Act::On(k, _) | Act::Off(k) | Act::Tap(k, _) = step.1 {
                            step.1 = if k == 0 { Act::Prog(40) } else { Act::Vol(k + 60) };
                        }
                    }
                }
            }
            Src::Soup(s)
        })
        .boxed()
}

fn end_check(x: &Expected, ob: &Observed, exact: bool) -> Verdict {
    // (a song that takes no time takes one unit, or the driver would never get out of it)
    let end = units(x.end, x.tpb).max(1.0);
    let Some(&min) = ob.totals.iter().min() else { return Ok(()) };
    let tol = if exact { 0.0 } else { 1.0 };
    if (min as f64 - end).abs() > tol + 1e-6 {
        return Err(format!("the song is {:.3} units long but its first track to end does so at {}: {:?}", end, min, ob.totals));
    }
    let max = *ob.totals.iter().max().unwrap();
    if (max as f64 - end).abs() > tol + 1e-6 {
        return Err(format!("the song is {:.3} units long but its last track ends at {}: {:?}", end, max, ob.totals));
    }
    Ok(())
}

fn on_grid(x: &Expected, smf: &Smf) -> bool {
    let fits = |t: u32| smf.tpb > 0 && (t as u64 * 24) % smf.tpb as u64 == 0;
    x.notes.iter().all(|n| fits(n.start) && fits(n.end))
        && smf.tracks.iter().flatten().all(|(t, e)| fits(*t) || matches!(e, MEv::Meta(..) | MEv::SysEx(_)))
}

fn c03_check(c: &Src, o: &mut Obs) -> Verdict {
    let Some((smf, _)) = c.load() else { return Ok(()) };
    let exact = on_grid(&expect(&smf), &smf);
    let Some((x, ob, _)) = sound_of(c, 0.2, true)? else { return Ok(()) };
    if x.notes.iter().any(|n| n.end > n.start && ((n.end - n.start) as u64 * 24) < x.tpb as u64) {
        if x.channels > 1 || x.peak > 1 {
            o.label("sub-unit notes in several voices (left out)");
            return Ok(());
        }
        o.label("sub-unit notes");
        o.nontrivial = x.notes.len() >= 5;
        return short_check(&x, &ob);
    }
    timing_check(&x, &ob, exact)?;
    end_check(&x, &ob, exact)?;
    o.nontrivial = x.notes.len() >= 5 && x.end as u64 * 24 > 200 * x.tpb as u64;
    o.label(if exact { "on the unit grid" } else { "off grid" });
    o.when(smf.tpb % 24 != 0, "ticks per beat not a multiple of 24");
    o.when(ob.notes.iter().any(|n| n.q < 7), "gate shorter than 7");
    o.when(ob.notes.iter().any(|n| n.slot > 127), "tied notes");
    o.when(x.end as u64 * 24 > 32385 * x.tpb as u64, "longer than 255*127 units");
    o.when(x.notes.len() > 100, "> 100 notes");
    Ok(())
}

fn c03_strategy(_: Tier) -> BoxedStrategy<Src> {
    song(Cfg::default()).prop_map(Src::Gen).boxed()
}

/// Long off-grid lines: quantisation error must not accumulate.
fn c03_drift(t: Tier) -> BoxedStrategy<Src> {
    let reps = if t == Tier::Quick { 40 } else { 120 };
    song(Cfg { grid: Some(false), max_chans: 3, max_lines: 2, max_reps: reps, max_segs: 6, changes: false, noise: false, ..Default::default() })
        .prop_map(Src::Gen)
        .boxed()
}

// ---------------------------------------------------------------- C04

fn c04_check(c: &Src, o: &mut Obs) -> Verdict {
    let Some((smf, _)) = c.load() else { return Ok(()) };
    let exact = on_grid(&expect(&smf), &smf);
    let Some((x, ob, _)) = sound_of(c, 0.2, true)? else { return Ok(()) };
    if !exact {
        return Ok(());
    }
    type Sound = (Option<u8>, u8, Vec<(u64, u8)>);
    let mut want: BTreeMap<(u64, u8, u8), Vec<Sound>> = BTreeMap::new();
    let mut got = want.clone();
    let unit = |t: u32| t as u64 * 24 / x.tpb as u64;
    for n in x.notes.iter().filter(|n| n.end > n.start) {
        // a volume is the last one set at its tick
        let mut ch: BTreeMap<u64, u8> = BTreeMap::new();
        for &(t, v) in &n.vol_changes {
            if t < n.end {
                ch.insert(unit(t), v);
            }
        }
        let mut vol = n.vol.unwrap_or(0xc8);
        let mut changes = vec![];
        for (t, v) in ch {
            if t == unit(n.start) {
                vol = v;
            } else {
                changes.push((t, v));
            }
        }
        want.entry((unit(n.start), n.pitch, velnib(n.vel))).or_default().push((n.instr, vol, squash(vol, changes)));
    }
    for n in &ob.notes {
        if n.instr_changed_during {
            return Err(format!("voice {}: the note {:02x} at {} changes instrument while it sounds", n.voice, n.pitch, n.start));
        }
        let mut ch: BTreeMap<u64, u8> = BTreeMap::new();
        for &(t, v) in &n.vol_changes {
            ch.insert(t, v);
        }
        let changes = ch.into_iter().collect();
        got.entry((n.start, n.pitch, n.vel)).or_default().push((n.instr, n.vol, squash(n.vol, changes)));
    }
    for (k, w) in want.iter_mut() {
        let g = got.entry(*k).or_default();
        w.sort();
        g.sort();
        if w != g {
            return Err(format!(
                "at unit {} pitch {:02x} velocity {}: (instrument, volume, volume changes) should be {:?}, is {:?}",
                k.0, k.1, k.2, w, g
            ));
        }
    }
    let shared = x.channels > ob.totals.len();
    let progs = smf.tracks.iter().flatten().filter(|(t, e)| *t > 0 && matches!(e, MEv::Prog { .. })).count();
    let vols = smf.tracks.iter().flatten().filter(|(t, e)| *t > 0 && matches!(e, MEv::Cc { ctl: 7, .. })).count();
    o.nontrivial = x.notes.len() >= 3 && (x.channels > 1) && (shared || progs + vols > 0);
    o.when(shared, "channels share a voice");
    let progs_of = |ch: u8| smf.tracks.iter().flatten().filter(move |(_, e)| matches!(*e, MEv::Prog { ch: c, .. } if c == ch)).map(|e| e.0).min();
    o.when(x.notes.iter().any(|n| n.ch != DRUMS && progs_of(n.ch).map_or(true, |t| t > n.start)), "a note before its channel's first program");
    o.when(progs > 0, "program change after the start");
    o.when(vols > 0, "volume change after the start");
    o.when(x.notes.iter().any(|n| n.vol_changes.iter().any(|c| c.0 > n.start && c.0 < n.end)), "volume change during a note");
    o.when(x.peak > x.channels, "chords");
    Ok(())
}

fn squash(start: u8, v: Vec<(u64, u8)>) -> Vec<(u64, u8)> {
    let mut cur = start;
    v.into_iter()
        .filter(|&(_, x)| {
            let keep = x != cur;
            cur = x;
            keep
        })
        .collect()
}

fn c04_strategy(_: Tier) -> BoxedStrategy<Src> {
    song(Cfg { grid: Some(true), long: false, ..Default::default() }).prop_map(Src::Gen).boxed()
}

// ---------------------------------------------------------------- C05

fn c05_check(c: &Src, o: &mut Obs) -> Verdict {
    let Some((smf, bytes)) = c.load() else { return Ok(()) };
    let x = expect(&smf);
    for opt in [false, true] {
        let Some(img) = conv(&bytes, &x, 0.2, opt)? else { return Ok(()) };
        let p = img.play_all()?;
        let mut first = true;
        for (i, &t) in img.part.iter().enumerate() {
            let b = &img.tracks[t];
            let pre: &[u8] = if first { &[0xfa, 0x19, 0xe5, 0xc8, 0xed, 0xc8] } else { &[0xed, 0xc8] };
            first = false;
            if !b.starts_with(pre) {
                return Err(format!("track {} of the part does not start with its preamble: {:02x?}", i, &b[..b.len().min(8)]));
            }
        }
        if img.part.len() > 8 {
            return Err(format!("{} voices", img.part.len()));
        }
        // the driver plays the part over and over, so it must take some time
        if let Some(v) = p.iter().position(|p| p.evs.iter().map(|e| e.dur()).sum::<u64>() == 0) {
            return Err(format!("voice {} takes no time", v));
        }
        o.when(x.end == 0 && !img.part.is_empty(), "song that takes no time");
        // every subroutine is used and none is empty
        for t in 0..img.tracks.len() {
            if !img.part.contains(&t) && !img.refs.iter().any(|r| r.values().any(|&x| x == t)) {
                return Err(format!("track {} belongs to no voice and no call", t));
            }
        }
        // subroutines parse on their own as well
        for t in 0..img.tracks.len() {
            if !img.part.contains(&t) {
                let q = play(&img, t << 24).map_err(|e| format!("subroutine: {}", e))?;
                if !q.calls.is_empty() {
                    return Err(format!("subroutine {} contains a call", t));
                }
            }
        }
        o.when(opt && p.iter().any(|p| !p.calls.is_empty()), "has calls");
    }
    o.nontrivial = x.notes.len() >= 5;
    o.when(x.notes.iter().any(|n| n.vel < 8), "velocity below 8");
    o.when(x.notes.iter().any(|n| ((n.end - n.start) as u64 * 24) < x.tpb as u64), "note shorter than a unit");
    Ok(())
}

fn c05_strategy(_: Tier) -> BoxedStrategy<Src> {
    song(Cfg { holds: true, ..Default::default() }).prop_map(Src::Gen).boxed()
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TempoCase {
    src: Src,
    factor: f32,
}

fn c12_check(c: &TempoCase, o: &mut Obs) -> Verdict {
    let Some((smf, _)) = c.src.load() else { return Ok(()) };
    let exact = on_grid(&expect(&smf), &smf);
    let Some((x, ob, _)) = sound_of(&c.src, c.factor, true)? else { return Ok(()) };
    let subunit = x.notes.iter().any(|n| n.end > n.start && ((n.end - n.start) as u64 * 24) < x.tpb as u64);
    if subunit {
        return Ok(());
    }
    // at one tick only the last tempo counts
    let mut want: BTreeMap<u32, u32> = BTreeMap::new();
    let mut last_tick = 0;
    for &(t, us) in &x.tempos {
        if t < x.end {
            want.insert(t, us);
            last_tick = last_tick.max(t);
        }
    }
    if ob.tempos.windows(2).any(|w| w[0].2 != w[1].2) {
        return Err("tempo commands on more than one voice".into());
    }
    let near = |v: u8, us: u32| -> bool {
        let t = 6e7 / us as f64 * c.factor as f64;
        // (a tempo beyond what the driver can do is its fastest or its slowest; with tempo 0 it stops)
        v > 0 && (v as f64) > (t - 1.001).min(254.0) && (v as f64) < (t + c.factor as f64 + 0.001).max(1.5)
    };
    // the tempo in force at probe points: just after each change and just before the next
    let at = |u: f64| -> Option<u8> { ob.tempos.iter().filter(|e| e.0 as f64 <= u + 1e-6).last().map(|e| e.1) };
    let ticks: Vec<(u32, u32)> = want.into_iter().collect();
    let tol = if exact { 0.0 } else { 1.0 };
    for (i, &(t, us)) in ticks.iter().enumerate() {
        let from = units(t, x.tpb) + tol;
        let to = ticks.get(i + 1).map_or(units(x.end, x.tpb), |n| units(n.0, x.tpb)) - tol - 0.01;
        for u in [from, to] {
            if u < from || u > to || to < from {
                continue;
            }
            match at(u) {
                Some(v) if near(v, us) => {}
                v => {
                    return Err(format!(
                        "tempo change to {} us/beat (factor {}) at unit {:.3}: at unit {:.3} the tempo in force is {:?}; emitted {:?}",
                        us,
                        c.factor,
                        units(t, x.tpb),
                        u,
                        v,
                        ob.tempos
                    ))
                }
            }
        }
    }
    // and none before the first change
    if let Some(&(t, _)) = ticks.first() {
        if let Some(v) = at(units(t, x.tpb) - tol - 0.01) {
            return Err(format!("tempo {} set before the first tempo change of the file at unit {:.3}", v, units(t, x.tpb)));
        }
    } else if !ob.tempos.is_empty() && x.tempos.is_empty() {
        return Err("tempo set although the file sets none".into());
    }
    o.nontrivial = ticks.iter().any(|t| t.0 > 0) && x.notes.len() >= 3;
    o.when(ticks.iter().any(|t| 6e7 / t.1 as f64 * c.factor as f64 > 256.0), "faster than the driver can be");
    o.when(ticks.iter().any(|t| 6e7 / t.1 as f64 * (c.factor as f64) < 1.0), "slower than the driver can be");
    o.when(ticks.len() > 1, "several tempo changes");
    o.when(x.default_tempo, "no tempo at the start of the file");
    o.when(ticks.iter().any(|&(t, _)| x.notes.iter().any(|n| n.start < t && t < n.end)), "tempo change while a note sounds");
    o.when(ticks.iter().any(|&(t, _)| !x.notes.iter().any(|n| n.start <= t && t <= n.end)), "tempo change during silence");
    Ok(())
}

fn c12_strategy(_: Tier) -> BoxedStrategy<TempoCase> {
    (song(Cfg { noise: false, changes: false, ..Default::default() }), prop_oneof![2 => Just(0.2f32), 2 => Just(0.3f32), 2 => 0.1f32..0.8, 1 => 0.8f32..6.0, 1 => 0.001f32..0.1])
        .prop_map(|(g, factor)| TempoCase { src: Src::Gen(g), factor })
        .boxed()
}

fn c12_porta(t: Tier) -> BoxedStrategy<TempoCase> {
    (porta_s(t), 0.1f32..0.8).prop_map(|(src, factor)| TempoCase { src, factor }).boxed()
}

fn c12_fixed(t: Tier) -> Vec<TempoCase> {
    sample_cases(t).into_iter().map(|src| TempoCase { src, factor: 0.2 }).collect()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "Songs generated from motif/section structures (plus a tiny-alphabet arm with dense self-overlap and an arm repeating one motif 250-600 times); non-trivial: the optimised song executes at least two calls.",
            assumptions: &["track bytes are what the N-SPC driver plays, per the player model in spc.rs"],
            arms: vec![
                Box::new(Arm { name: "rich", cases: (6000, 60000), strategy: rich, check: c01_check, fixed: sample_cases }),
                Box::new(Arm { name: "tiny", cases: (8000, 80000), strategy: tiny_alphabet, check: c01_check, fixed: none }),
                Box::new(Arm { name: "many-repeats", cases: (80, 1000), strategy: many_repeats, check: c01_check, fixed: none }),
                Box::new(Arm { name: "porta", cases: (3000, 30000), strategy: porta_s, check: c01_check, fixed: none }),
            ],
        },
        Property {
            id: "C02",
            rule: "Generated multi-channel polyphonic songs and the repository's sample files; non-trivial: at least five notes and two sounding at once.",
            assumptions: &[],
            arms: vec![Box::new(Arm { name: "notes", cases: (12000, 150000), strategy: c02_strategy, check: c02_check, fixed: sample_cases }),
                Box::new(Arm { name: "soup", cases: (12000, 150000), strategy: soup_s, check: c02_check, fixed: none }),
                Box::new(Arm { name: "edges", cases: (1600, 16000), strategy: edge_s, check: c02_check, fixed: none }),
                Box::new(Arm { name: "porta", cases: (4000, 40000), strategy: porta_s, check: c02_check, fixed: none })],
        },
        Property {
            id: "C03",
            rule: "Generated songs on and off the 1/24-beat grid, plus long off-grid lines, plus the sample files; non-trivial: at least five notes over more than 200 units.",
            assumptions: &["gate value 7 sounds between 7/8 and all of its slot, q<7 exactly q/8"],
            arms: vec![
                Box::new(Arm { name: "mixed", cases: (10000, 120000), strategy: c03_strategy, check: c03_check, fixed: sample_cases }),
                Box::new(Arm { name: "drift", cases: (1200, 12000), strategy: c03_drift, check: c03_check, fixed: none }),
                Box::new(Arm { name: "soup", cases: (8000, 100000), strategy: soup_grid, check: c03_check, fixed: none }),
                Box::new(Arm { name: "short", cases: (6000, 80000), strategy: soup_short, check: c03_check, fixed: none }),
                Box::new(Arm { name: "porta", cases: (4000, 40000), strategy: porta_s, check: c03_check, fixed: none }),
                Box::new(Arm { name: "frames", cases: (1000, 10000), strategy: frames_s, check: frames_check, fixed: |_| vec![] }),
            ],
        },
        Property {
            id: "C04",
            rule: "Generated grid-aligned songs with program and volume changes before, between and during notes; non-trivial: several channels and either a shared voice or a change after the start.",
            assumptions: &[],
            arms: vec![Box::new(Arm { name: "sound", cases: (12000, 150000), strategy: c04_strategy, check: c04_check, fixed: sample_cases }),
                Box::new(Arm { name: "soup", cases: (8000, 100000), strategy: soup_grid, check: c04_check, fixed: none }),
                Box::new(Arm { name: "porta", cases: (4000, 40000), strategy: porta_s, check: c04_check, fixed: none })],
        },
        Property {
            id: "C05",
            rule: "Generated songs (wide pitch, velocity, length and polyphony ranges) and the sample files; non-trivial: at least five notes.",
            assumptions: &["driver grammar per spc.rs"],
            arms: vec![Box::new(Arm { name: "wellformed", cases: (10000, 120000), strategy: c05_strategy, check: c05_check, fixed: sample_cases }),
                Box::new(Arm { name: "soup", cases: (8000, 100000), strategy: soup_s, check: c05_check, fixed: none }),
                Box::new(Arm { name: "instant", cases: (1000, 10000), strategy: instant_s, check: c05_check, fixed: none }),
                Box::new(Arm { name: "porta", cases: (4000, 40000), strategy: porta_s, check: c05_check, fixed: none })],
        },
        Property {
            id: "C12",
            rule: "Generated songs with tempo changes at note starts, ends, inside notes and in silence; non-trivial: a tempo change after tick 0 and at least three notes.",
            assumptions: &[],
            arms: vec![Box::new(Arm { name: "tempo", cases: (10000, 120000), strategy: c12_strategy, check: c12_check, fixed: c12_fixed }),
                Box::new(Arm { name: "porta", cases: (3000, 30000), strategy: c12_porta, check: c12_check, fixed: none })],
        },
    ]
}
