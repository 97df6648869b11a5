//! C18: arbitrary bytes as MIDI, JSON, manifest and ROM files.
use crate::gen::*;
use crate::jsong::*;
use crate::props::rom::*;
use crate::props::rom::NAMES;
use crate::props::song::*;
use crate::runner::*;
use crate::smf::*;
use crate::sut::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

/// A change to a file; positions are fractions of its length.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutn {
    Set(u16, u8),
    Xor(u16, u8),
    Cut(u16),
    Del(u16, u8),
    Ins(u16, Vec<u8>),
    Copy(u16, u8, u16),
    /// byte of the first 40 set
    Head(u8, u8),
    /// length field of a track set
    TrackLen(u8, u32),
    Append(Vec<u8>),
}

fn apply(d: &mut Vec<u8>, m: &Mutn) {
    let at = |d: &Vec<u8>, p: u16| (p as usize * d.len()) >> 16;
    if d.is_empty() {
        return;
    }
    match m {
        Mutn::Set(p, v) => {
            let i = at(d, *p);
            d[i] = *v
        }
        Mutn::Xor(p, v) => {
            let i = at(d, *p);
            d[i] ^= *v
        }
        Mutn::Cut(p) => {
            let i = at(d, *p);
            d.truncate(i)
        }
        Mutn::Del(p, n) => {
            let i = at(d, *p);
            let j = (i + *n as usize + 1).min(d.len());
            d.drain(i..j);
        }
        Mutn::Ins(p, v) => {
            let i = at(d, *p);
            d.splice(i..i, v.iter().copied());
        }
        Mutn::Copy(p, n, q) => {
            let i = at(d, *p);
            let part: Vec<u8> = d[i..(i + *n as usize).min(d.len())].to_vec();
            let j = at(d, *q);
            d.splice(j..j, part);
        }
        Mutn::Head(i, v) => {
            let i = *i as usize % d.len().min(40);
            d[i] = *v
        }
        Mutn::TrackLen(k, v) => {
            let tags: Vec<usize> = (0..d.len().saturating_sub(8)).filter(|&i| &d[i..i + 4] == b"MTrk").collect();
            if !tags.is_empty() {
                let i = tags[*k as usize % tags.len()] + 4;
                d[i..i + 4].copy_from_slice(&v.to_be_bytes());
            }
        }
        Mutn::Append(v) => d.extend(v),
    }
}

fn mutn(words: &'static [&'static str]) -> BoxedStrategy<Mutn> {
    let byte = || prop_oneof![2 => any::<u8>(), 3 => prop::sample::select(vec![0u8, 0x7f, 0x80, 0xff, 0x81, 0x90, 0xb0, 0xc0, 0xf0, 0xf7, 0x51, 0x2f, 1, 3])];
    let bytes = if words.is_empty() {
        prop::collection::vec(byte(), 1..8).boxed()
    } else {
        prop_oneof![3 => prop::sample::select(words.to_vec()).prop_map(|w| w.as_bytes().to_vec()), 1 => prop::collection::vec(byte(), 1..4)].boxed()
    };
    prop_oneof![
        4 => (any::<u16>(), byte()).prop_map(|(p, v)| Mutn::Set(p, v)),
        3 => (any::<u16>(), 1u8..=255).prop_map(|(p, v)| Mutn::Xor(p, v)),
        1 => any::<u16>().prop_map(Mutn::Cut),
        2 => (any::<u16>(), 0u8..12).prop_map(|(p, n)| Mutn::Del(p, n)),
        3 => (any::<u16>(), bytes.clone()).prop_map(|(p, v)| Mutn::Ins(p, v)),
        2 => (any::<u16>(), any::<u8>(), any::<u16>()).prop_map(|(p, n, q)| Mutn::Copy(p, n, q)),
        1 => (0u8..40, byte()).prop_map(|(p, v)| Mutn::Head(p, v)),
        1 => (any::<u8>(), prop_oneof![any::<u32>(), Just(0u32), Just(u32::MAX), 0u32..300]).prop_map(|(k, v)| Mutn::TrackLen(k, v)),
        1 => bytes.prop_map(Mutn::Append),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bytes {
    Midi(SongGen, Vec<Mutn>),
    /// events replaced in a file that stays readable: which event, kind of change, its value; and the time division
    Odd(SongGen, Vec<(u16, u8, u8)>, Option<u16>),
    Raw(Vec<u8>),
}

impl Bytes {
    fn get(&self) -> Vec<u8> {
        match self {
            Bytes::Midi(g, m) => {
                let mut d = encode(&g.compile());
                for x in m {
                    apply(&mut d, x);
                }
                d
            }
            Bytes::Odd(g, m, tpb) => {
                let mut s = g.compile();
                if let Some(t) = tpb {
                    s.tpb = *t;
                }
                for &(at, kind, v) in m {
                    odd_event(&mut s, at, kind, v);
                }
                encode(&s)
            }
            Bytes::Raw(v) => v.clone(),
        }
    }
}

fn odd_event(s: &mut Smf, at: u16, kind: u8, v: u8) {
    let n: usize = s.tracks.iter().map(|t| t.len()).sum();
    if n == 0 {
        return;
    }
    let mut i = (at as usize * n) >> 16;
    let tr = s.tracks.iter_mut().find(|t| i < t.len() || { i -= t.len(); false }).unwrap();
    let t = tr[i].0;
    let ch = v & 15;
    let new = match kind % 20 {
        0 => MEv::Prog { ch, prog: v },
        1 => MEv::On { ch, note: v, vel: 100 },
        2 => MEv::On { ch, note: 60, vel: v },
        3 => MEv::Off { ch, note: v, vel: 0 },
        4 => MEv::Cc { ch, ctl: 7, val: v },
        5 => MEv::Cc { ch, ctl: [5, 37, 65, 64, 120, 121, 123][v as usize % 7], val: v },
        6 => MEv::Cc { ch, ctl: v, val: 127 },
        7 => MEv::Tempo([0, 1, 255, 10_000, 0xffffff, 60_000_000 / 256][v as usize % 6]),
        8 => MEv::Meta(0x51, vec![v; v as usize % 6]),
        9 => MEv::Meta(0x2f, vec![]),
        10 => MEv::Meta(v, vec![v; v as usize]),
        11 => MEv::SysEx(vec![v & 0x7f; v as usize]),
        12 => MEv::Bend { ch, lo: v, hi: v },
        13 => MEv::ChanP { ch, val: v },
        14 => {
            // everything from here on is later
            for e in tr[i..].iter_mut() {
                e.0 = e.0.saturating_add([1, 1000, 100_000, 0x0fff_ffff][v as usize % 4]).min(0x0fff_ffff);
            }
            return;
        }
        15 => {
            tr.truncate(i);
            return;
        }
        16 => {
            // the event is lost
            tr.remove(i);
            return;
        }
        17 => {
            // twice
            let e = tr[i].clone();
            tr.insert(i, e);
            return;
        }
        18 => {
            // to the end of the track
            let mut e = tr.remove(i);
            e.0 = tr.last().map_or(e.0, |l| l.0 + v as u32);
            tr.push(e);
            return;
        }
        _ => {
            s.tracks.push(vec![(0, MEv::On { ch, note: 64, vel: 90 }), (v as u32 * 8, MEv::Off { ch, note: 64, vel: 0 })]);
            return;
        }
    };
    tr.insert(i, (t, new));
}

fn midi_bytes(_: Tier) -> BoxedStrategy<Bytes> {
    let g = || song(Cfg { max_chans: 4, max_lines: 2, max_segs: 2, max_reps: 2, long: false, holds: true, ..Default::default() });
    let raw = prop::collection::vec(any::<u8>(), 0..200).prop_map(|v| {
        let mut d = b"MThd\0\0\0\x06\0\x01\0\x01\0\x60MTrk\0\0\x01\0".to_vec();
        d.extend(v);
        Bytes::Raw(d)
    });
    prop_oneof![
        4 => (g(), prop::collection::vec(mutn(&[]), 1..=6)).prop_map(|(g, m)| Bytes::Midi(g, m)),
        4 => (g(), prop::collection::vec(mutn(&[]), 1..=1)).prop_map(|(g, m)| Bytes::Midi(g, m)),
        8 => (
            g(),
            prop::collection::vec((any::<u16>(), any::<u8>(), any::<u8>()), 1..=5),
            prop_oneof![6 => Just(None), 1 => prop::sample::select(vec![0u16, 1, 2, 23, 24, 25, 960, 32767, 32768, 65535]).prop_map(Some)],
        )
            .prop_map(|(g, m, t)| Bytes::Odd(g, m, t)),
        1 => raw,
        1 => prop::collection::vec(any::<u8>(), 0..100).prop_map(Bytes::Raw),
    ]
    .boxed()
}

/// Optimising songs of many thousand commands takes very long (a recorded known finding).
const OPTIMISED: usize = 3000;

fn c18_midi(b: &Bytes, o: &mut Obs) -> Verdict {
    let d = b.get();
    match convert_midi(&d, 0.2, false) {
        Outcome::Ok(i) => {
            let p = i.play_all().map_err(|e| format!("the converted song is not well-formed: {}", e))?;
            if i.part.len() > 8 {
                return Err(format!("{} voices", i.part.len()));
            }
            let size: usize = i.tracks.iter().map(|t| t.len()).sum();
            if size < OPTIMISED {
                match convert_midi(&d, 0.2, true) {
                    Outcome::Ok(j) => {
                        let q = j.play_all().map_err(|e| format!("the optimised song is not well-formed: {}", e))?;
                        same_playback(&p, &q, "unoptimised", "optimised")?;
                    }
                    Outcome::Err(e) | Outcome::Panic(e) => return Err(format!("converts only unoptimised: {}", e)),
                }
            } else {
                o.label("long song, not optimised");
            }
            o.label("converted");
            o.when(p.iter().any(|p| p.evs.len() > 8), "converted to something");
            o.nontrivial = p.iter().any(|p| p.evs.len() > 8);
        }
        Outcome::Err(_) => {
            o.label("refused");
            o.nontrivial = true;
        }
        Outcome::Panic(_) => {
            o.label("refused with a panic");
            o.nontrivial = true;
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Which {
    Midi(Bytes),
    Json(JSong, Vec<Mutn>),
    /// values of the JSON tree replaced
    JsonTree(JSong, Vec<(u16, u8)>),
    Manifest(Vec<Mutn>),
    ManifestTree(Vec<(u16, u8)>),
    Rom(Vec<Mutn>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PipeCase {
    c: RomCase,
    slot: u8,
    which: Which,
}

fn odd_value(k: u8) -> Value {
    match k % 16 {
        0 => json!(null),
        1 => json!(-1),
        2 => json!(256),
        3 => json!(1e300),
        4 => json!("Rest"),
        5 => json!([]),
        6 => json!({}),
        7 => json!(true),
        8 => json!(0),
        9 => json!(255),
        10 => json!(u64::MAX),
        11 => json!([0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        12 => json!({"CallLoop": [0, 255]}),
        13 => json!({"CallLoop": [0, 0]}),
        14 => json!({"Note": 5}),
        _ => json!(0.5),
    }
}

fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(m) => m.values().map(count).sum(),
        _ => 0,
    }
}

fn nth(v: &mut Value, n: &mut usize, new: &Value) {
    if *n == 0 {
        *n = usize::MAX;
        *v = new.clone();
        return;
    }
    *n -= 1;
    match v {
        Value::Array(a) => {
            for x in a {
                if *n == usize::MAX {
                    return;
                }
                nth(x, n, new)
            }
        }
        Value::Object(m) => {
            for (_, x) in m.iter_mut() {
                if *n == usize::MAX {
                    return;
                }
                nth(x, n, new)
            }
        }
        _ => {}
    }
}

fn odd(v: &mut Value, at: u16, k: u8) {
    let mut n = (at as usize * count(v)) >> 16;
    nth(v, &mut n, &odd_value(k));
}

fn c18_pipe(h: &PipeCase, o: &mut Obs) -> Verdict {
    let mut c = h.c.clone();
    for k in c.cuts.iter_mut() {
        k.slack |= 0x400;
    }
    let Some(mut p) = c.prepare(None)? else { return Ok(()) };
    let mut m: Value = serde_json::from_slice(&std::fs::read(&p.manifest).unwrap()).unwrap();
    let mut text = None;
    let mut bad = None;
    let k = h.slot as usize % 34;
    match &h.which {
        Which::Midi(b) => bad = Some(("bad.mid", b.get())),
        Which::Json(j, ms) => {
            let mut d = serde_json::to_vec(&j.to_json()).unwrap();
            for x in ms {
                apply(&mut d, x);
            }
            bad = Some(("bad.json", d));
        }
        Which::JsonTree(j, ms) => {
            let mut v = j.to_json();
            for &(at, k) in ms {
                odd(&mut v, at, k);
            }
            bad = Some(("bad.json", serde_json::to_vec(&v).unwrap()));
        }
        Which::Manifest(ms) => {
            let mut d = serde_json::to_vec(&m).unwrap();
            for x in ms {
                apply(&mut d, x);
            }
            text = Some(d);
        }
        Which::ManifestTree(ms) => {
            for &(at, k) in ms {
                odd(&mut m, at, k);
            }
        }
        Which::Rom(ms) => {
            for x in ms {
                // pointers, headers and chunks
                apply(&mut p.rom.data, x);
            }
        }
    }
    if let Some((name, d)) = &bad {
        p.scratch.file(name, d);
        let b = (0..3).rev().find(|&b| k >= crate::romimg::SLOT0[b]).unwrap();
        m[BANKS[b]][NAMES[b][k - crate::romimg::SLOT0[b]]] = json!({ "input": name });
    }
    let text = text.unwrap_or_else(|| serde_json::to_vec(&m).unwrap());
    std::fs::write(&p.manifest, &text).unwrap();
    std::fs::write(&p.rom_path, &p.rom.data).unwrap();
    // (see OPTIMISED)
    let optimize = c.optimize && !matches!(h.which, Which::Midi(_));
    let r = build_rom(&p.manifest, &p.rom_path, c.addrs(), optimize, false);
    let after = std::fs::read(&p.rom_path).map_err(|e| format!("the ROM is gone: {}", e))?;
    let kind = format!("{:?}", h.which);
    let kind = kind.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
    if r.failed() {
        if after != p.rom.data {
            return Err(format!("the build failed but the ROM changed (from {} to {} bytes)", p.rom.data.len(), after.len()));
        }
        o.label(&format!("{}: refused", kind));
    } else {
        o.label(&format!("{}: built", kind));
        if after.len() != p.rom.data.len() {
            return Err(format!("the ROM was {} bytes long and is {}", p.rom.data.len(), after.len()));
        }
        if !matches!(h.which, Which::Rom(_)) {
            frame_check(&p.rom, &after)?;
        }
    }
    let names: Vec<String> = std::fs::read_dir(&p.scratch.0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    if let Some(n) = names.iter().find(|n| !(n.starts_with('s') || n.starts_with("manifest") || n.starts_with("bad") || n.starts_with("rom.smc"))) {
        return Err(format!("a build leaves a file {:?} behind", n));
    }
    o.nontrivial = true;
    Ok(())
}

/// A repetitive song, converted by the program itself with 10 s of processor time and 3 GB of memory.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Repetitive {
    /// the same quarter note this often
    notes: u32,
    /// silence before the last note, in beats
    silence: u32,
}

/// Converts a file with the program itself under limits: seconds of processor time, and 3 GB. The signal that ended it.
fn limited(mid: &[u8], seconds: u64) -> Option<i32> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let sc = Scratch::new();
    let f = sc.file("in.mid", mid);
    let mut cmd = std::process::Command::new(crate::props::cli::program());
    cmd.arg("midi2json").arg(&f).arg(sc.0.join("out.json"));
    cmd.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    unsafe {
        cmd.pre_exec(move || {
            let lim = |n: u64| libc::rlimit { rlim_cur: n, rlim_max: n };
            libc::setrlimit(libc::RLIMIT_CPU, &lim(seconds));
            libc::setrlimit(libc::RLIMIT_AS, &lim(3 << 30));
            Ok(())
        });
    }
    cmd.status().expect("program runs").signal()
}

fn c18_cost(c: &Repetitive, o: &mut Obs) -> Verdict {
    let mut ev = vec![];
    let mut t = 0;
    for i in 0..=c.notes {
        if i == c.notes {
            t += c.silence * 24;
        }
        ev.push((t, MEv::On { ch: 0, note: 60, vel: 100 }));
        t += 24;
        ev.push((t, MEv::Off { ch: 0, note: 60, vel: 0 }));
    }
    o.nontrivial = true;
    match limited(&encode(&Smf { format: 1, tpb: 24, tracks: vec![ev], running: false }), 10) {
        Some(s) => Err(format!("converting {} notes and {} beats of silence takes more than 10 s or 3 GB (signal {})", c.notes, c.silence, s)),
        None => Ok(()),
    }
}

/// Channels that are hard to spread over the voices: some that could go anywhere, then some that sound together.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    /// the first channels, one after the other
    alone: u8,
    /// sets of the other channels that sound at the same time
    together: Vec<u16>,
}

fn c18_crowd(c: &Crowd, o: &mut Obs) -> Verdict {
    let alone = c.alone as u16 % 8;
    let mut ev = vec![];
    let mut t = 0;
    for m in (0..alone).map(|k| 1 << k).chain(c.together.iter().map(|m| m >> alone << alone)) {
        for k in (0..16).filter(|k| m >> k & 1 == 1) {
            ev.push((t, MEv::On { ch: k, note: 60, vel: 100 }));
        }
        t += 24;
        for k in (0..16).filter(|k| m >> k & 1 == 1) {
            ev.push((t, MEv::Off { ch: k, note: 60, vel: 0 }));
        }
    }
    o.nontrivial = alone > 2;
    o.when(c.together.iter().any(|m| (m >> alone).count_ones() > 8), "more than eight channels at once");
    // (the worst of these take a few seconds)
    match limited(&encode(&Smf { format: 1, tpb: 24, tracks: vec![ev], running: false }), 60) {
        Some(s) => Err(format!("sixteen channels of {} notes take more than 60 s or 3 GB (signal {})", t / 24, s)),
        None => Ok(()),
    }
}

fn c18_crowd_s(_: Tier) -> BoxedStrategy<Crowd> {
    let few = (any::<u16>(), any::<u16>()).prop_map(|(a, b)| a & b);
    (0u8..8, prop_oneof![1 => Just(vec![0xffffu16]), 3 => prop::collection::vec(prop_oneof![any::<u16>(), few], 1..12)])
        .prop_map(|(alone, together)| Crowd { alone, together })
        .boxed()
}

fn worst(_: Tier) -> Vec<Crowd> {
    (6..8).map(|alone| Crowd { alone, together: vec![0xffff] }).collect()
}

fn c18_cost_s(_: Tier) -> BoxedStrategy<Repetitive> {
    prop_oneof![
        (0u32..400, 0u32..1000).prop_map(|(notes, silence)| Repetitive { notes, silence }),
        (0u32..10, 0u32..5000).prop_map(|(notes, silence)| Repetitive { notes, silence }),
    ]
    .boxed()
}

const JSON_WORDS: &[&str] = &[
    "null", "-1", "256", "1e9", "\"", "{", "}", "[", "]", ",", ":", "0", "9", "{\"Note\":5}", "\"Rest\"", "true", "\\u0000", "[[[[[[[[[[[[", "{\"a\":", " ", "18446744073709551616",
];

fn c18_pipe_s(t: Tier) -> BoxedStrategy<PipeCase> {
    let ms = |w: &'static [&'static str]| prop::collection::vec(mutn(w), 1..=4);
    let tree = || prop::collection::vec((any::<u16>(), any::<u8>()), 1..=3);
    let which = prop_oneof![
        2 => midi_bytes(t).prop_map(Which::Midi),
        2 => (jsong_s(4, 10), ms(JSON_WORDS)).prop_map(|(j, m)| Which::Json(j, m)),
        4 => (jsong_s(4, 10), tree()).prop_map(|(j, m)| Which::JsonTree(j, m)),
        2 => ms(JSON_WORDS).prop_map(Which::Manifest),
        2 => tree().prop_map(Which::ManifestTree),
        3 => ms(&[]).prop_map(Which::Rom),
    ];
    (rom_case(true), any::<u8>(), which).prop_map(|(c, slot, which)| PipeCase { c, slot, which }).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C18",
        rule: "Mutated and random MIDI files converted, and mutated MIDI, JSON, manifest and ROM files in builds; non-trivial: always, for converted MIDI files if something sounds.",
        assumptions: &["one case taking more than 100 s of processor time or 6 GB of memory counts as hanging", "songs of more than 3000 bytes are not optimised here"],
        arms: vec![
            Box::new(Arm { name: "midi", cases: (20000, 300000), strategy: midi_bytes, check: c18_midi, fixed: none }),
            Box::new(Arm { name: "build", cases: (3000, 40000), strategy: c18_pipe_s, check: c18_pipe, fixed: none }),
            Box::new(Arm { name: "cost", cases: (40, 400), strategy: c18_cost_s, check: c18_cost, fixed: none }),
            Box::new(Arm { name: "voices", cases: (120, 1500), strategy: c18_crowd_s, check: c18_crowd, fixed: worst }),
        ],
    }]
}
