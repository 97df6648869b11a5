//! C22: how much room songs take.
use crate::runner::*;
use crate::gen::*;
use crate::jsong::*;
use crate::props::rom::image_of_file;
use crate::props::song::*;
use crate::perf::*;
use crate::smf::*;
use crate::spc::*;
use crate::sut::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PassageCase {
    /// key, length in units, velocity, pause after it in units
    passage: Vec<(u8, u8, u8, u8)>,
    /// per channel: how often the passage comes in a row, and whether a note of its own follows
    voices: Vec<Vec<(u8, bool)>>,
    tpb: u16,
}

impl PassageCase {
    fn smf(&self) -> (Smf, usize) {
        let m = (self.tpb / 24) as u32;
        let mut tracks = vec![];
        let mut seps = 0u32;
        for (v, runs) in self.voices.iter().enumerate() {
            let ch = v as u8;
            let mut t = 0u32;
            let mut evs = vec![(0, MEv::Prog { ch, prog: 0 })];
            let mut note = |t: &mut u32, key: u8, len: u32, vel: u8, gap: u32| {
                evs.push((*t * m, MEv::On { ch, note: key, vel }));
                *t += len;
                evs.push((*t * m, MEv::Off { ch, note: key, vel: 64 }));
                *t += gap;
            };
            for &(n, sep) in runs {
                for _ in 0..n {
                    for &(key, len, vel, gap) in &self.passage {
                        note(&mut t, key, len as u32, vel, gap as u32);
                    }
                }
                if sep {
                    // (a note that comes nowhere else)
                    note(&mut t, 72 + (seps % 12) as u8, 20 + seps / 12, 120, 0);
                    seps += 1;
                }
            }
            tracks.push(evs);
        }
        (Smf { format: 1, tpb: self.tpb, tracks, running: false }, seps as usize)
    }
}

fn size(bytes: &[u8], optimize: bool) -> Result<usize, String> {
    match convert_midi(bytes, 0.2, optimize) {
        Outcome::Ok(i) => Ok(i.tracks.iter().map(|t| t.len()).sum()),
        Outcome::Err(e) | Outcome::Panic(e) => Err(format!("conversion failed: {}", e)),
    }
}

fn passage_check(c: &PassageCase, o: &mut Obs) -> Verdict {
    let (smf, seps) = c.smf();
    let bytes = encode(&smf);
    let (plain, opt) = (size(&bytes, false)?, size(&bytes, true)?);
    // the passage once
    let once = PassageCase { voices: vec![vec![(1, false)]], ..c.clone() };
    let p = size(&encode(&once.smf().0), false)?;
    let runs: usize = c.voices.iter().map(|v| v.len()).sum();
    let occ: usize = c.voices.iter().flatten().map(|r| r.0 as usize).sum();
    // twelve bytes for what comes first in a voice, three for a note of its own, a few for each call
    let bound = 12 * c.voices.len() + 3 * seps + 12 * runs + 5 * p;
    if opt > bound {
        return Err(format!(
            "a passage of {} bytes comes {} times, in {} places, with {} other notes: {} bytes without optimisation, and still {} (more than {}) with it",
            p, occ, runs, seps, plain, opt, bound
        ));
    }
    o.when(opt * 5 < plain, "less than a fifth of the size");
    o.when(c.voices.len() > 1, "several voices");
    o.nontrivial = bound < plain;
    Ok(())
}

/// Commands of an exported song.
fn exported(bytes: &[u8]) -> Result<Option<Value>, String> {
    let sc = scratch_root();
    std::fs::create_dir_all(&sc).expect("scratch");
    let (mid, json) = (sc.join("size.mid"), sc.join("size.json"));
    std::fs::write(&mid, bytes).expect("scratch");
    let r = sut(|| -> Result<(), String> {
        let mut m = midi2spc::midi::MidiHandler::new();
        m.read(&mid, false).map_err(|e| format!("{}", e))?;
        let song = midi2spc::nspc::Song::from_midi(&m, 0.2, true, false).map_err(|e| format!("{}", e))?;
        song.write_to_json(&json);
        Ok(())
    });
    match r {
        Ok(Ok(())) => serde_json::from_slice(&std::fs::read(&json).map_err(|e| e.to_string())?).map(Some).map_err(|e| e.to_string()),
        Ok(Err(_)) => Ok(None),
        Err(p) => Err(p),
    }
}

fn called(c: &Value) -> Option<(u64, u64)> {
    let a = c["command"].get("CallLoop")?;
    Some((a[0].as_u64()?, a[1].as_u64()?))
}

fn left_check(c: &Src, o: &mut Obs) -> Verdict {
    let Some((_, bytes)) = c.load() else { return Ok(()) };
    let Some(v) = exported(&bytes)? else { return Ok(()) };
    let tracks: Vec<Vec<Value>> = v["tracks"].as_array().ok_or("tracks")?.iter().map(|t| t["commands"].as_array().cloned().unwrap_or_default()).collect();
    let voices: Vec<usize> = v["parts"][0]["tracks"].as_array().ok_or("part")?.iter().map(|t| t.as_u64().unwrap_or(0) as usize).collect();
    let subs: Vec<(usize, String)> = (0..tracks.len()).filter(|t| !voices.contains(t)).map(|t| (t, Value::from(tracks[t].clone()).to_string())).collect();
    for (i, a) in subs.iter().enumerate() {
        if let Some(b) = subs[..i].iter().find(|b| b.1 == a.1) {
            return Err(format!("subroutines {} and {} are the same", b.0, a.0));
        }
    }
    // numbers for commands; what cannot be in a subroutine gets a number of its own
    let mut numbers: HashMap<String, usize> = HashMap::new();
    let mut fresh = usize::MAX;
    let mut voice: Vec<Vec<usize>> = vec![];
    let mut grams: HashMap<[usize; 4], Vec<(usize, usize)>> = HashMap::new();
    for (k, &t) in voices.iter().enumerate() {
        let mut last: Option<(u64, u64)> = None;
        let mut nums = vec![];
        for c in &tracks[t] {
            let call = called(c);
            if let (Some(a), Some(b)) = (last, call) {
                if a.0 == b.0 && a.1 < 255 {
                    return Err(format!("voice {} calls subroutine {} {} times and then {} times again", k, a.0, a.1, b.1));
                }
            }
            last = call;
            nums.push(if call.is_some() || c["command"].get("PitchSlide").is_some() {
                fresh -= 1;
                fresh
            } else {
                let n = numbers.len();
                *numbers.entry(c.to_string()).or_insert(n)
            });
        }
        for i in 0..nums.len().saturating_sub(3) {
            if tracks[t][i]["command"] != "Tie" {
                grams.entry([nums[i], nums[i + 1], nums[i + 2], nums[i + 3]]).or_default().push((k, i));
            }
        }
        voice.push(nums);
    }
    for at in grams.values() {
        for (n, &(b, j)) in at.iter().enumerate() {
            for &(a, i) in at[..n].iter().rev().take(50) {
                // as far as they are the same
                let same = voice[a][i..].iter().zip(&voice[b][j..]).take_while(|p| p.0 == p.1).count();
                if a != b || i + same <= j {
                    let what: Vec<String> = tracks[voices[a]][i..i + same].iter().map(|c| c.to_string()).collect();
                    return Err(format!("{} commands of voice {} from command {} on come again in voice {} at command {}: {:?}", same, a, i, b, j, what));
                }
            }
        }
    }
    o.nontrivial = subs.len() > 0;
    o.when(subs.len() > 1, "two or more subroutines");
    Ok(())
}

/// Parameters that are already in force are not written again.
fn plain_check(c: &Src, o: &mut Obs) -> Verdict {
    let Some((smf, bytes)) = c.load() else { return Ok(()) };
    let Some(img) = conv(&bytes, &expect(&smf), 0.2, false)? else { return Ok(()) };
    o.nontrivial = no_redundant(&img)? > 0;
    Ok(())
}

fn plain_json_check(j: &JSong, o: &mut Obs) -> Verdict {
    let sc = scratch_root();
    std::fs::create_dir_all(&sc).expect("scratch");
    let p = sc.join("plain.json");
    std::fs::write(&p, j.to_json().to_string()).expect("scratch");
    let img = match image_of_file(&p, true, 0.2, false) {
        Outcome::Ok(i) => i,
        Outcome::Err(e) | Outcome::Panic(e) => return Err(format!("loading the JSON song failed: {}", e)),
    };
    o.nontrivial = no_redundant(&img)? > 0;
    Ok(())
}

/// Voices without calls: number of notes, rests and ties that go without a duration of their own.
fn no_redundant(img: &SongImage) -> Result<usize, String> {
    let mut one = 0;
    for (v, &t) in img.part.iter().enumerate() {
        let d = &img.tracks[t];
        let (mut dur, mut velq) = (0u8, 0u8);
        let mut i = 0;
        while i < d.len() {
            let at = i;
            if d[i] == 0 {
                break;
            }
            if d[i] < 0x80 {
                let same = d[i] == dur;
                dur = d[i];
                i += 1;
                if i < d.len() && d[i] < 0x80 {
                    if d[i] == velq {
                        return Err(format!("voice {} offset {:#x}: velocity and gate {:02x} are in force already", v, at, velq));
                    }
                    velq = d[i];
                    i += 1;
                } else if same {
                    return Err(format!("voice {} offset {:#x}: duration {} is in force already", v, at, dur));
                }
            } else {
                one += usize::from(d[i] < 0xe0);
            }
            if i >= d.len() {
                return Err(format!("voice {} ends within a command", v));
            }
            i += 1 + if d[i] >= 0xe0 { EFFECT_LEN.get(d[i] as usize - 0xe0).copied().unwrap_or(0) } else { 0 };
        }
    }
    Ok(one)
}

fn rich_s(t: Tier) -> BoxedStrategy<Src> {
    prop_oneof![4 => song(Cfg { max_reps: 6, ..Default::default() }).prop_map(Src::Gen), 1 => porta_s(t)].boxed()
}

fn passage_s(_: Tier) -> BoxedStrategy<PassageCase> {
    let note = (36u8..72, prop_oneof![3 => Just(24u8), 1 => Just(12), 1 => 2u8..120], prop_oneof![3 => Just(100u8), 1 => 1u8..128], prop_oneof![4 => Just(0u8), 1 => 3u8..40]);
    let run = (prop_oneof![2 => Just(1u8), 1 => 1u8..=8], prop::bool::weighted(0.7));
    (prop::collection::vec(note, 4..=24), prop::collection::vec(prop::collection::vec(run, 1..=10), 1..=4), prop::sample::select(vec![24u16, 48, 96, 480]))
        .prop_map(|(passage, voices, tpb)| PassageCase { passage, voices, tpb })
        .boxed()
}

/// Songs without calls, with few different durations, velocities and gates.
fn plain_json_s(_: Tier) -> BoxedStrategy<JSong> {
    let few = (prop::sample::subsequence(vec![6u8, 12, 24, 48, 96, 127], 1..=3), prop::sample::subsequence((1u8..16).collect::<Vec<_>>(), 1..=2), prop::sample::subsequence((1u8..8).collect::<Vec<_>>(), 1..=2));
    let pick = prop::collection::vec((0u8..8, any::<u8>(), any::<u8>(), any::<u8>(), 0u8..8), 1..60);
    let voice = (few, pick).prop_map(|((d, v, q), picks)| {
        picks
            .into_iter()
            .enumerate()
            .map(|(i, (kind, a, b, c, none))| {
                let dur = if none & 1 == 0 || i == 0 { Some(d[a as usize % d.len()]) } else { None };
                let vel = if none & 2 == 0 { Some(v[b as usize % v.len()]) } else { None };
                let gate = if none & 4 == 0 { Some(q[c as usize % q.len()]) } else { None };
                match kind {
                    0 => JCmd::Rest(dur),
                    1 => JCmd::Tie(dur),
                    _ => JCmd::Note(0x98 + a % 24, dur, vel, gate),
                }
            })
            .collect()
    });
    prop::collection::vec(voice, 1..=3).prop_map(|voices| JSong { voices, subs: vec![], subs_first: false, rot: 0, pick: vec![], zeros: false }).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C22",
        rule: "Generated songs with repeats; non-trivial: the optimised song has subroutines (and, where a passage is placed a known number of times, the bound is below the size without optimisation).",
        assumptions: &["a passage is four or more commands in a row without calls and slides that does not begin with a tie; occurrences that overlap themselves are left to the optimiser"],
        arms: vec![
            Box::new(Arm { name: "left", cases: (4000, 40000), strategy: rich_s, check: left_check, fixed: sample_cases }),
            Box::new(Arm { name: "left-tiny", cases: (4000, 40000), strategy: tiny_alphabet, check: left_check, fixed: none }),
            Box::new(Arm { name: "left-many", cases: (80, 1000), strategy: many_repeats, check: left_check, fixed: none }),
            Box::new(Arm { name: "plain", cases: (4000, 40000), strategy: rich_s, check: plain_check, fixed: sample_cases }),
            Box::new(Arm { name: "plain-json", cases: (4000, 40000), strategy: plain_json_s, check: plain_json_check, fixed: none }),
            Box::new(Arm { name: "passages", cases: (4000, 40000), strategy: passage_s, check: passage_check, fixed: none })],
    }]
}
