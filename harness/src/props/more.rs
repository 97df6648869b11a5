//! C10, C14, C16, C17, C20: JSON songs, drums, voices, equivalent files, portamento.
use crate::gen::*;
use crate::jsong::*;
use crate::perf::*;
use crate::props::song::*;
use crate::runner::*;
use crate::smf::*;
use crate::spc::*;
use crate::sut::*;
use midi2spc::{midi, nspc};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- C10

fn load_json(sc: &Scratch, name: &str, text: &[u8]) -> Result<(nspc::Song, SongImage), String> {
    let p = sc.file(name, text);
    let s = sut(|| nspc::Song::from_json(&p)).map_err(|e| format!("a valid JSON song does not load: {}", e))?;
    let i = sut(|| image_of(&s)).map_err(|e| format!("writing the song panics: {}", e))?.map_err(|e| format!("writing the song fails: {}", e))?;
    Ok((s, i))
}

fn save_json(sc: &Scratch, s: &nspc::Song, name: &str) -> Result<Vec<u8>, String> {
    let p = sc.0.join(name);
    sut(|| s.write_to_json(&p)).map_err(|e| format!("saving panics: {}", e))?;
    std::fs::read(&p).map_err(|e| e.to_string())
}

fn same_image(a: &SongImage, b: &SongImage, what: &str) -> Verdict {
    if a.tracks != b.tracks || a.refs != b.refs || a.part != b.part {
        let t = a.tracks.iter().zip(&b.tracks).position(|(x, y)| x != y);
        return Err(format!(
            "{}: {} tracks, part {:?} became {} tracks, part {:?}; first different track {:?}: {:02x?} {:02x?}",
            what,
            a.tracks.len(),
            a.part,
            b.tracks.len(),
            b.part,
            t,
            t.map(|t| &a.tracks[t]),
            t.map(|t| &b.tracks[t])
        ));
    }
    Ok(())
}

fn events_same(got: &[Played], want: &[Vec<Ev>]) -> Verdict {
    let want: Vec<Played> = want.iter().map(|e| Played { evs: e.clone(), ..Default::default() }).collect();
    same_playback(&want, got, "the description", "the song")
}

fn c10_describe(j: &JSong, o: &mut Obs) -> Verdict {
    let sc = Scratch::new();
    let v = j.to_json();
    let text = if j.zeros { serde_json::to_vec_pretty(&v) } else { serde_json::to_vec(&v) }.unwrap();
    let (song, img) = load_json(&sc, "a.json", &text)?;
    if img.part != j.part() {
        return Err(format!("the part's tracks are {:?} instead of {:?}", img.part, j.part()));
    }
    let p = img.play_all()?;
    events_same(&p, &j.play())?;
    // saved and loaded again
    let saved = save_json(&sc, &song, "b.json")?;
    let back: Value = serde_json::from_slice(&saved).map_err(|e| format!("saved song is not JSON: {}", e))?;
    if back != v {
        return Err(format!("the saved song differs from the one loaded: {}", diff(&v, &back, "")));
    }
    let (_, img2) = load_json(&sc, "b.json", &saved)?;
    same_image(&img, &img2, "saving and loading again")?;
    let fx: std::collections::BTreeSet<u8> =
        p.iter().flat_map(|p| &p.evs).filter_map(|e| if let Ev::Cmd { op, .. } = e { Some(*op) } else { None }).collect();
    let calls = p.iter().any(|p| !p.calls.is_empty());
    o.nontrivial = j.voices.iter().map(|v| v.len()).sum::<usize>() > 3;
    o.when(calls, "calls");
    o.when(fx.len() > 6, "several effects");
    o.when(j.subs_first, "subroutines before voices");
    o.when(j.voices.iter().any(|v| v.is_empty()), "an empty track");
    Ok(())
}

fn diff(a: &Value, b: &Value, at: &str) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return format!("{}/{} is missing", at, k),
                    Some(w) if v != w => return diff(v, w, &format!("{}/{}", at, k)),
                    _ => {}
                }
            }
            format!("{} has more entries", at)
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            let i = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(0);
            diff(&x[i], &y[i], &format!("{}/{}", at, i))
        }
        _ => format!("{}: {} became {}", at, a, b),
    }
}

/// What the voices of a song described in JSON play (independent of JSong).
pub fn play_value(v: &Value) -> Result<Vec<Vec<Ev>>, String> {
    struct St {
        dur: Option<u8>,
        velq: Option<u8>,
    }
    fn run(tracks: &[Value], t: usize, depth: usize, st: &mut St, out: &mut Vec<Ev>) -> Result<(), String> {
        let cmds = tracks.get(t).and_then(|t| t["commands"].as_array()).ok_or_else(|| format!("no track {}", t))?;
        for c in cmds {
            let num = |k: &str| -> Option<u8> { c[k].as_u64().map(|v| v as u8).filter(|&v| v > 0) };
            let (name, args): (&str, Vec<u64>) = match &c["command"] {
                Value::String(s) => (s, vec![]),
                Value::Object(m) if m.len() == 1 => {
                    let (k, v) = m.iter().next().unwrap();
                    let a = match v {
                        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap_or(999)).collect(),
                        x => vec![x.as_u64().ok_or("operand")?],
                    };
                    (k, a)
                }
                x => return Err(format!("command {}", x)),
            };
            if name == "CallLoop" {
                if depth > 0 {
                    return Err("nested call".into());
                }
                for _ in 0..args[1] {
                    let mut sub = St { dur: st.dur, velq: None };
                    run(tracks, args[0] as usize, 1, &mut sub, out)?;
                    st.dur = sub.dur;
                    st.velq = sub.velq.or(st.velq);
                }
                continue;
            }
            let timed = matches!(name, "Note" | "Rest" | "Tie");
            if let Some(d) = num("duration") {
                if !timed {
                    return Err(format!("{} with a duration", name));
                }
                st.dur = Some(d);
            }
            let (v, q) = (num("velocity"), num("sustain"));
            if v.is_some() || q.is_some() || (name == "Note" && st.velq.is_none()) {
                let cur = st.velq.unwrap_or(0x7d);
                st.velq = Some(q.map_or(cur & 0x70, |q| q << 4) | v.unwrap_or(cur & 15));
            }
            let dur = st.dur.unwrap_or(0);
            match name {
                "Note" => {
                    let velq = st.velq.unwrap();
                    out.push(Ev::Note { pitch: args[0] as u8, dur, velq })
                }
                "Rest" => out.push(Ev::Rest { dur }),
                "Tie" => out.push(Ev::Tie { dur }),
                _ => {
                    let n = NAMES.iter().find(|n| n.0 == name).ok_or_else(|| format!("command {}", name))?;
                    if n.2 != args.len() {
                        return Err(format!("{} with {} operands", name, args.len()));
                    }
                    out.push(Ev::Cmd { op: n.1, args: args.iter().map(|&a| a as u8).collect() })
                }
            }
        }
        Ok(())
    }
    let tracks = v["tracks"].as_array().ok_or("no tracks")?;
    let part = v["parts"][0]["tracks"].as_array().ok_or("no part")?;
    let mut voices = vec![];
    for (i, t) in part.iter().enumerate() {
        let mut out = vec![];
        let t = t.as_u64().ok_or("track number")? as usize;
        if tracks.get(t).map_or(true, |t| t["commands"].as_array().map_or(true, |c| c.is_empty())) {
            voices.push(out);
            continue;
        }
        if i == 0 {
            out.push(Ev::Cmd { op: 0xfa, args: vec![0x19] });
            out.push(Ev::Cmd { op: 0xe5, args: vec![0xc8] });
        }
        out.push(Ev::Cmd { op: 0xed, args: vec![0xc8] });
        run(tracks, t, 0, &mut St { dur: None, velq: None }, &mut out)?;
        voices.push(out);
    }
    Ok(voices)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExportCase {
    src: Src,
    optimize: bool,
}

fn c10_export(c: &ExportCase, o: &mut Obs) -> Verdict {
    let Some((smf, bytes)) = c.src.load() else { return Ok(()) };
    let x = expect(&smf);
    if x.peak_sum > 8 {
        return Ok(());
    }
    let sc = Scratch::new();
    let p = sc.file("a.mid", &bytes);
    let song = sut(|| -> Result<nspc::Song, String> {
        let mut m = midi::MidiHandler::new();
        m.read(&p, false).map_err(|e| format!("{}", e))?;
        nspc::Song::from_midi(&m, 0.2, c.optimize, false).map_err(|e| format!("{}", e))
    })
    .map_err(|e| format!("conversion panicked: {}", e))?
    .map_err(|e| format!("conversion failed: {}", e))?;
    let img = image_of(&song)?;
    let text = save_json(&sc, &song, "a.json")?;
    let v: Value = serde_json::from_slice(&text).map_err(|e| format!("saved song is not JSON: {}", e))?;
    let (_, img2) = load_json(&sc, "b.json", &text)?;
    same_image(&img, &img2, "saving a converted song and loading it")?;
    let want = play_value(&v).map_err(|e| format!("saved song: {}", e))?;
    let got = img.play_all()?;
    events_same(&got, &want)?;
    o.nontrivial = x.notes.len() >= 3;
    o.when(img.tracks.len() > img.part.len(), "subroutines");
    Ok(())
}

fn c10_js(t: Tier) -> BoxedStrategy<JSong> {
    let n = if t == Tier::Quick { 30 } else { 80 };
    prop_oneof![jsong_s(8, 12), jsong_s(3, n)].boxed()
}

fn c10_exp(t: Tier) -> BoxedStrategy<ExportCase> {
    let src = prop_oneof![3 => song(Cfg { holds: true, long: false, ..Default::default() }).prop_map(Src::Gen), 1 => porta_s(t)];
    (src, any::<bool>()).prop_map(|(src, optimize)| ExportCase { src, optimize }).boxed()
}

fn c10_fixed(t: Tier) -> Vec<ExportCase> {
    sample_cases(t).into_iter().flat_map(|src| [true, false].map(|optimize| ExportCase { src: src.clone(), optimize })).collect()
}

// ---------------------------------------------------------------- C14

fn c14_check(g: &SongGen, o: &mut Obs) -> Verdict {
    let smf = g.compile();
    let bytes = encode(&smf);
    let x = expect(&smf);
    let Some(img) = conv(&bytes, &x, 0.2, true)? else { return Ok(()) };
    let ob = observe(&img.play_all()?)?;
    type Key = (u8, u8, Option<u8>);
    let mut count: BTreeMap<Key, (Vec<f64>, Vec<f64>, bool)> = BTreeMap::new();
    for n in &x.notes {
        let e = count.entry((n.pitch, (n.vel / 8).max(1), n.instr)).or_default();
        e.0.push(n.start as f64 * 24.0 / x.tpb as f64);
        e.2 |= n.ch == DRUMS;
    }
    for n in &ob.notes {
        count.entry((n.pitch, n.vel, n.instr)).or_default().1.push(n.start as f64);
    }
    for (k, (w, g, drum)) in count.iter_mut() {
        if w.len() != g.len() {
            return Err(format!(
                "{} notes with pitch {:02x}, velocity {}, instrument {:?} in the file{}, {} in the song",
                w.len(),
                k.0,
                k.1,
                k.2,
                if *drum { " (drums among them)" } else { "" },
                g.len()
            ));
        }
        w.sort_by(|a, b| a.partial_cmp(b).unwrap());
        g.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let short = x.notes.iter().any(|n| (n.end - n.start) as u64 * 24 < x.tpb as u64);
        if let Some((a, b)) = w.iter().zip(g.iter()).find(|(a, b)| (**a - **b).abs() > 1.0 + 1e-6) {
            if !short {
                return Err(format!("a note with pitch {:02x}, instrument {:?} should start at {:.2}, starts at {}", k.0, k.2, a, b));
            }
        }
    }
    // the drum channel's program changes make no difference
    let mut bare = smf.clone();
    for t in bare.tracks.iter_mut() {
        t.retain(|(_, e)| !matches!(e, MEv::Prog { ch: DRUMS, .. }));
    }
    if expect(&bare).end == x.end {
        let b = conv(&encode(&bare), &x, 0.2, true)?.ok_or("refused")?;
        same_playback(&img.play_all()?, &b.play_all()?, "the song", "the song without program changes on the drum channel")?;
    }
    let drums = x.notes.iter().filter(|n| n.ch == DRUMS).count();
    o.nontrivial = drums >= 3 && drums < x.notes.len();
    o.when(x.notes.iter().any(|n| n.ch == DRUMS && n.instr == Some(SNARE)) && x.notes.iter().any(|n| n.ch == DRUMS && n.instr == Some(CYMBAL)), "snares and cymbals");
    o.when(x.channels > ob.totals.len(), "channels share a voice");
    o.when(g.chans.iter().any(|c| c.ch == DRUMS && c.changes.iter().any(|c| matches!(c.1, ChangeG::Prog(_)))), "program changes on the drum channel");
    o.when(g.chans.iter().any(|c| c.ch == DRUMS && c.lines.len() > 1), "several drums at once");
    Ok(())
}

fn c14_strategy(_: Tier) -> BoxedStrategy<SongGen> {
    let dp = prop::collection::vec(prop_oneof![4 => prop::sample::select(vec![38u8, 40]), 3 => 27u8..=87, 1 => 0u8..128, 1 => Just(39u8)], 24);
    (song(Cfg { holds: true, long: false, noise: false, max_chans: 6, ..Default::default() }), dp)
        .prop_map(|(mut g, dp)| {
            if !g.chans.iter().any(|c| c.ch == 9) {
                let n = g.chans.len();
                g.chans[n - 1].ch = 9;
            }
            // every motif of the drum channel hits drums: give it its own copies
            let n = g.motifs.len();
            let mut copies = g.motifs.clone();
            let mut k = 0;
            for m in copies.iter_mut() {
                for x in m.iter_mut() {
                    x.pitch = dp[k % dp.len()];
                    k += 1;
                }
            }
            for c in g.chans.iter_mut().filter(|c| c.ch == 9) {
                for s in c.lines.iter_mut().flatten() {
                    s.motif = (s.motif as usize % n + n) as u8;
                }
            }
            for c in g.chans.iter_mut().filter(|c| c.ch != 9) {
                for s in c.lines.iter_mut().flatten() {
                    s.motif = (s.motif as usize % n) as u8;
                }
            }
            g.motifs.extend(copies);
            g
        })
        .boxed()
}

// ---------------------------------------------------------------- C16

/// A song laid out in time slots: per slot, which channels play how many notes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SlotSong {
    /// (channel, peak number of notes)
    chans: Vec<(u8, u8)>,
    /// per slot and channel of the list: number of notes (modulo peak + 1), offset and length of each in eighths
    slots: Vec<Vec<(u8, u8, u8)>>,
    /// one slot in which these many notes are added on top until the total is reached
    burst: Option<(u8, u8)>,
    /// rests between the slots
    gap: bool,
    ntracks: u8,
    /// every other note: 1 struck again half-way, 2 released twice, 3 both
    #[serde(default)]
    extra: u8,
}

const SLOT: u32 = 96;

impl SlotSong {
    /// With colours, channels of one colour never sound in the same slot; in the slots of the mask
    /// one channel of every colour sounds from beginning to end.
    fn compile(&self, color: Option<(&[u8], u16)>) -> Smf {
        let nt = (self.ntracks as usize).max(1);
        let mut tracks: Vec<Vec<(u32, u8, MEv)>> = vec![vec![]; nt];
        let u = 4; // ticks per unit at 96 per beat
        for (si, slot) in self.slots.iter().enumerate() {
            let at = si as u32 * (SLOT + if self.gap { 12 } else { 0 }) * u;
            let mut used: Vec<u8> = vec![];
            let mut total = 0;
            for (ci, &(ch, peak)) in self.chans.iter().enumerate() {
                let (n, off, len) = slot[ci % slot.len()];
                let mut n = n % (peak + 1);
                let mut full = false;
                if let Some((color, mask)) = color {
                    full = mask >> (si % 16) & 1 > 0;
                    n = n.min(1);
                    if full {
                        let rank = |i: usize| ((slot[i % slot.len()].1 as usize * 5 + slot[i % slot.len()].2 as usize + i * 3) % 16, i);
                        let best = (0..self.chans.len()).filter(|&i| color[i] == color[ci]).max_by_key(|&i| rank(i));
                        n = (best == Some(ci)) as u8;
                    } else if used.contains(&color[ci]) {
                        n = 0;
                    }
                    if n > 0 {
                        used.push(color[ci]);
                    }
                }
                let burst = match self.burst {
                    Some((s, want)) if s as usize % self.slots.len() == si => Some(want),
                    _ => None,
                };
                let last = ci + 1 == self.chans.len();
                for k in 0.. {
                    let more = burst.map_or(false, |w| (last || k < 2) && total < w as usize);
                    if k >= n && !more {
                        break;
                    }
                    // in the slot with the burst all notes overlap in the middle
                    let (a, b) = if burst.is_some() { (off as u32 % 4, 5 + len as u32 % 4) } else { (off as u32 % 5, off as u32 % 5 + 1 + len as u32 % 3) };
                    let (a, b) = if full { (0, 8) } else { (a, b) };
                    let note = 30 + k * 3 + (si as u8 % 3);
                    let t = &mut tracks[ci % nt];
                    t.push((at + a * SLOT / 8 * u, 1, MEv::On { ch, note, vel: 100 }));
                    t.push((at + b.min(8) * SLOT / 8 * u, 0, MEv::Off { ch, note, vel: 0 }));
                    if (si + ci + k as usize) % 2 == 0 {
                        if self.extra & 1 > 0 {
                            t.push((at + (a + b.min(8)) * SLOT / 16 * u, 1, MEv::On { ch, note, vel: 90 }));
                        }
                        if self.extra & 2 > 0 {
                            t.push((at + b.min(8) * SLOT / 8 * u, 0, MEv::Off { ch, note, vel: 0 }));
                        }
                    }
                    total += 1;
                }
            }
        }
        for (ci, &(ch, _)) in self.chans.iter().enumerate() {
            tracks[ci % nt].push((0, 0, MEv::Prog { ch, prog: ch * 8 }));
        }
        for t in tracks.iter_mut() {
            t.sort_by_key(|e| (e.0, e.1));
        }
        Smf { format: 1, tpb: 96, tracks: tracks.into_iter().map(|t| t.into_iter().map(|e| (e.0, e.2)).collect()).collect(), running: false }
    }
}

fn slot_rows(n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<Vec<(u8, u8, u8)>>> {
    prop::collection::vec(prop::collection::vec((0u8..9, 0u8..8, 0u8..8), 16), n).boxed()
}

fn ids() -> impl Strategy<Value = Vec<u8>> {
    Just((0u8..16).collect::<Vec<u8>>()).prop_shuffle()
}

/// Peaks of the channels add up to at most eight.
fn c16_fit_s(_: Tier) -> BoxedStrategy<SlotSong> {
    (ids(), prop::collection::vec(1u8..=8, 1..=8), slot_rows(1..=8), any::<bool>(), 1u8..=4, 0u8..4)
        .prop_map(|(ids, peaks, slots, gap, ntracks, extra)| {
            let mut left = 8;
            let mut chans = vec![];
            for (i, p) in peaks.into_iter().enumerate() {
                let p = p.min(left);
                if p > 0 {
                    chans.push((ids[i], p));
                    left -= p;
                }
            }
            SlotSong { chans, slots, burst: None, gap, ntracks, extra }
        })
        .boxed()
}

fn sounds_right(x: &Expected, img: &SongImage) -> Result<Observed, String> {
    let ob = observe(&img.play_all()?)?;
    if img.part.len() > 8 {
        return Err(format!("{} voices", img.part.len()));
    }
    let mut want: Vec<(u64, u8, Option<u8>)> = x.notes.iter().map(|n| (n.start as u64 * 24 / x.tpb as u64, n.pitch, n.instr)).collect();
    let mut got: Vec<(u64, u8, Option<u8>)> = ob.notes.iter().map(|n| (n.start, n.pitch, n.instr)).collect();
    want.sort();
    got.sort();
    if want != got {
        let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        return Err(format!(
            "{} notes in the file, {} in the song; first difference (start, pitch, instrument): {:?} in the file, {:?} in the song",
            want.len(),
            got.len(),
            want.get(i),
            got.get(i)
        ));
    }
    Ok(ob)
}

fn c16_fit(s: &SlotSong, o: &mut Obs) -> Verdict {
    let smf = s.compile(None);
    let x = expect(&smf);
    if x.peak_sum > 8 {
        return Err(format!("generator: peaks add up to {}", x.peak_sum));
    }
    match convert_midi(&encode(&smf), 0.2, true) {
        Outcome::Ok(i) => {
            sounds_right(&x, &i)?;
        }
        Outcome::Err(e) => return Err(format!("a song of {} voices is refused: {}", x.peak_sum, e)),
        Outcome::Panic(e) => return Err(format!("a song of {} voices panics: {}", x.peak_sum, e)),
    }
    o.nontrivial = x.peak_sum >= 6 && x.channels > 1;
    o.when(x.peak_sum == 8, "all eight voices needed");
    o.when(x.peak == 8, "eight notes at once");
    o.when(x.channels == 8, "eight channels");
    Ok(())
}

/// Monophonic channels of up to eight groups; the members of a group never sound together.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GroupCase {
    s: SlotSong,
    color: Vec<u8>,
    /// slots that the groups fill
    #[serde(default)]
    full: u16,
}

fn c16_group_s(_: Tier) -> BoxedStrategy<GroupCase> {
    (ids(), 2usize..=16, slot_rows(1..=12), any::<bool>(), 1u8..=4, prop::collection::vec(0u8..8, 16), prop_oneof![1u8..=8, Just(8)], 0u8..4, prop_oneof![Just(0u16), any::<u16>(), Just(0xffff)])
        .prop_map(|(ids, n, slots, gap, ntracks, color, k, extra, full)| GroupCase {
            s: SlotSong { chans: ids.into_iter().take(n).map(|c| (c, 4)).collect(), slots, burst: None, gap, ntracks, extra },
            color: color.into_iter().map(|c| c % k).collect(),
            full,
        })
        .boxed()
}

fn c16_group(c: &GroupCase, o: &mut Obs) -> Verdict {
    let smf = c.s.compile(Some((&c.color, c.full)));
    let x = expect(&smf);
    match convert_midi(&encode(&smf), 0.2, true) {
        Outcome::Ok(i) => {
            sounds_right(&x, &i)?;
        }
        Outcome::Err(e) => return Err(format!("{} channels that could share eight voices are refused: {}", x.channels, e)),
        Outcome::Panic(e) => return Err(format!("{} channels panic: {}", x.channels, e)),
    }
    o.nontrivial = x.channels > 8;
    o.when(x.channels > 12, "13 to 16 channels");
    o.when(x.peak == 8, "eight notes at once");
    let sounding = |t: u32| x.notes.iter().filter(|n| n.start < t && n.end >= t).count();
    o.when(x.channels > 8 && x.notes.iter().any(|n| n.start > 0 && sounding(n.start) == 8), "a note begins where all eight voices sounded");
    Ok(())
}

/// Anything: more than eight notes at once are refused, the rest is played in full or refused.
fn c16_any_s(_: Tier) -> BoxedStrategy<SlotSong> {
    let peaks = prop::collection::vec(prop_oneof![4 => 1u8..=2, 1 => 1u8..=9], 1..=16);
    let burst = prop_oneof![2 => Just(None), 2 => (any::<u8>(), prop_oneof![3 => Just(9u8), 1 => 8u8..=24]).prop_map(Some)];
    (ids(), peaks, slot_rows(1..=8), burst, any::<bool>(), 1u8..=4, 0u8..4, 0u8..4)
        .prop_map(|(ids, peaks, mut slots, burst, gap, ntracks, thin, extra)| {
            // leave some channels out of some slots
            for (i, r) in slots.iter_mut().enumerate() {
                for (k, e) in r.iter_mut().enumerate() {
                    if (e.1 as usize + i + k) % 4 < thin as usize {
                        e.0 = 0;
                    }
                }
            }
            SlotSong { chans: ids.into_iter().zip(peaks).collect(), slots, burst, gap, ntracks, extra }
        })
        .boxed()
}

fn c16_any(s: &SlotSong, o: &mut Obs) -> Verdict {
    let smf = s.compile(None);
    let x = expect(&smf);
    match convert_midi(&encode(&smf), 0.2, true) {
        Outcome::Ok(_) if x.peak > 8 => return Err(format!("a song with {} notes at once is converted", x.peak)),
        Outcome::Ok(i) => {
            sounds_right(&x, &i)?;
            o.when(x.peak_sum > 8, "converted, peaks add up to more than eight");
        }
        Outcome::Err(e) if x.peak_sum <= 8 => return Err(format!("a song of {} voices is refused: {}", x.peak_sum, e)),
        Outcome::Err(_) => {
            o.when(x.peak > 8, "refused, more than eight notes at once");
            o.when(x.peak <= 8, "refused, up to eight notes at once");
        }
        Outcome::Panic(e) => return Err(format!("a song with {} notes at once panics: {}", x.peak, e)),
    }
    o.nontrivial = x.peak_sum > 8;
    o.when(x.peak == 9, "exactly nine notes at once");
    Ok(())
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Twist {
    /// each note-off as a note-on with velocity 0 or not, per bit; with these off velocities
    Offs(Vec<bool>, u8),
    Running,
    Noise(Vec<(u16, NoiseG)>),
    /// order of note-offs and other events within a tick
    Order(u8),
    /// MIDI track of each channel, further split by key
    Tracks(Vec<u8>, bool),
    /// time division and times multiplied
    Scale(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TwistCase {
    g: SongGen,
    twists: Vec<Twist>,
    /// portamento switched at these places
    #[serde(default)]
    porta: Vec<Ctl>,
}

/// Applies a twist; true if the voices may be assigned differently afterwards.
fn twist(s: &mut Smf, t: &Twist, end: u32) -> bool {
    match t {
        Twist::Offs(bits, vel) => {
            let mut k = 0;
            for (_, e) in s.tracks.iter_mut().flatten() {
                if let MEv::Off { ch, note, .. } | MEv::On { ch, note, vel: 0 } = *e {
                    *e = if bits[k % bits.len()] { MEv::On { ch, note, vel: 0 } } else { MEv::Off { ch, note, vel: vel.wrapping_mul(k as u8) & 127 } };
                    k += 1;
                }
            }
            false
        }
        Twist::Running => {
            s.running = true;
            false
        }
        Twist::Noise(n) => {
            for (i, (at, n)) in n.iter().enumerate() {
                let at = (*at as u64 * end as u64 / 65535) as u32;
                let e = match *n {
                    NoiseG::Text(n) => MEv::Meta(1 + n % 7, vec![b'x'; n as usize]),
                    NoiseG::TimeSig => MEv::Meta(0x58, vec![4, 2, 24, 8]),
                    NoiseG::KeySig => MEv::Meta(0x59, vec![1, 0]),
                    NoiseG::PolyP(ch, note, val) => MEv::PolyP { ch, note, val },
                    NoiseG::ChanP(ch, val) => MEv::ChanP { ch, val },
                    NoiseG::Bend(ch, lo, hi) => MEv::Bend { ch, lo, hi },
                    NoiseG::Cc(ch, ctl, val) => MEv::Cc { ch, ctl, val },
                    NoiseG::SysEx(n) => MEv::SysEx(vec![0x11; n as usize]),
                };
                let nt = s.tracks.len();
                let t = &mut s.tracks[i % nt];
                let k = t.iter().position(|e| e.0 >= at).unwrap_or(t.len());
                t.insert(k, (at, e));
            }
            false
        }
        Twist::Order(how) => {
            for t in s.tracks.iter_mut() {
                let mut i = 0;
                let mut sounding: Vec<(u8, u8)> = vec![];
                while i < t.len() {
                    let mut j = i;
                    while j < t.len() && t[j].0 == t[i].0 {
                        j += 1;
                    }
                    let key = |e: &MEv, strike: bool| match *e {
                        MEv::On { ch, note, vel: 1..=127 } if strike => Some((ch, note)),
                        MEv::Off { ch, note, .. } | MEv::On { ch, note, vel: 0 } if !strike => Some((ch, note)),
                        _ => None,
                    };
                    // note-offs may go anywhere in the tick unless their key is struck there; then only if it is clear
                    // that they belong to the note that sounds until then
                    let struck: Vec<(u8, u8)> = t[i..j].iter().filter_map(|e| key(&e.1, true)).collect();
                    let ended: Vec<(u8, u8)> = t[i..j].iter().filter_map(|e| key(&e.1, false)).collect();
                    let is_off = |e: &(u32, MEv)| match key(&e.1, false) {
                        Some(k) => {
                            let n = struck.iter().filter(|&&s| s == k).count();
                            n == 0 || (n == 1 && ended.iter().filter(|&&s| s == k).count() == 1 && sounding.contains(&k))
                        }
                        None => false,
                    };
                    let (offs, rest): (Vec<_>, Vec<_>) = t[i..j].iter().cloned().partition(|e| is_off(e));
                    let at = match how % 3 {
                        0 => rest.len(),
                        1 => 0,
                        _ => rest.len() / 2,
                    };
                    let mut all = rest;
                    for (k, o) in offs.into_iter().enumerate() {
                        all.insert(at + k, o);
                    }
                    for k in ended {
                        sounding.retain(|&s| s != k);
                    }
                    sounding.extend(struck);
                    t.splice(i..j, all);
                    i = j;
                }
            }
            false
        }
        Twist::Tracks(to, by_key) => {
            let n = to.iter().map(|&t| t as usize).max().unwrap_or(0) + 2;
            let mut out: Vec<Vec<(u32, MEv)>> = vec![vec![]; n];
            let mut all: Vec<(u32, MEv)> = s.tracks.iter().flatten().cloned().collect();
            all.sort_by_key(|e| e.0);
            for (t, e) in all {
                let k = match (channel_of(&e), &e) {
                    (None, _) => 0,
                    (Some(c), MEv::On { note, .. }) | (Some(c), MEv::Off { note, .. }) if *by_key => {
                        (to[c as usize % to.len()] as usize + *note as usize) % n
                    }
                    (Some(c), _) => to[c as usize % to.len()] as usize,
                };
                out[k].push((t, e));
            }
            s.tracks = out;
            true
        }
        Twist::Scale(k) => {
            let k = (*k as u32 % 16 + 2).min(0x7fff / s.tpb as u32);
            if k > 1 && s.tracks.iter().flatten().all(|e| e.0 < 0x0fff_ffff / k) {
                s.tpb *= k as u16;
                for e in s.tracks.iter_mut().flatten() {
                    e.0 *= k;
                }
            }
            false
        }
    }
}

fn c17_check(c: &TwistCase, o: &mut Obs) -> Verdict {
    let base = add_portamento(&c.g, &c.porta).0;
    let x = expect(&base);
    if x.notes.iter().any(|n| n.end <= n.start + 1) {
        return Ok(());
    }
    let a = conv(&encode(&base), &x, 0.2, true)?;
    let mut s = base.clone();
    let mut moved = false;
    for t in &c.twists {
        let end = expect(&s).end;
        moved |= twist(&mut s, t, end);
    }
    let b = match convert_midi(&encode(&s), 0.2, true) {
        Outcome::Ok(i) => Some(i),
        Outcome::Err(e) if a.is_some() && !(moved && x.peak_sum > 8) => return Err(format!("the file converts but an equivalent one is refused: {}", e)),
        Outcome::Err(_) => None,
        Outcome::Panic(e) => return Err(format!("an equivalent file panics: {}", e)),
    };
    let (Some(a), Some(b)) = (a, b) else { return Ok(()) };
    let (pa, pb) = (a.play_all()?, b.play_all()?);
    if !moved {
        same_playback(&pa, &pb, "the file", "the equivalent file")?;
    } else {
        let exact = c.g.grid;
        let sounds = |p: &[Played]| -> Result<_, String> {
            let ob = observe(p)?;
            let mut v: Vec<(u64, u8, u8, Option<u8>, u8, u64)> = vec![];
            for n in &ob.notes {
                let hi = n.sounding().1;
                v.push((n.start, n.pitch, n.vel, n.instr, n.vol, hi as u64));
            }
            if exact {
                v.sort();
            } else {
                // another voice may round differently
                v.sort_by_key(|n| (n.1, n.2, n.3, n.0));
            }
            let t: Vec<(u64, u8)> = ob.tempos.iter().map(|t| (t.0, t.1)).collect();
            Ok((v, t, ob.totals.iter().min().copied(), ob.totals.iter().max().copied()))
        };
        let (x, y) = (sounds(&pa)?, sounds(&pb)?);
        if x.0.len() != y.0.len() {
            return Err(format!("{} notes, {} from the equivalent file", x.0.len(), y.0.len()));
        }
        for (p, q) in x.0.iter().zip(&y.0) {
            if (p.1, p.2, p.3) != (q.1, q.2, q.3) || p.0.max(q.0) - p.0.min(q.0) > if exact { 0 } else { 1 } {
                return Err(format!("(start, pitch, velocity, instrument, volume, length) {:?} is {:?} in the equivalent file", p, q));
            }
        }
        if exact && x.1 != y.1 {
            return Err(format!("tempos {:?} are {:?} in the equivalent file", x.1, y.1));
        }
        if exact && (x.2, x.3) != (y.2, y.3) {
            return Err(format!("tracks end at {:?} to {:?}, in the equivalent file at {:?} to {:?}", x.2, x.3, y.2, y.3));
        }
    }
    o.nontrivial = x.notes.len() >= 3 && s != base;
    for t in &c.twists {
        let n = format!("{:?}", t);
        o.label(n.split('(').next().unwrap());
    }
    o.when(x.peak > 2, "chords");
    Ok(())
}

fn c17_strategy(_: Tier) -> BoxedStrategy<TwistCase> {
    let tw = prop_oneof![
        2 => (prop::collection::vec(any::<bool>(), 1..6), any::<u8>()).prop_map(|(b, v)| Twist::Offs(b, v)),
        1 => Just(Twist::Running),
        3 => prop::collection::vec((any::<u16>(), noise_s()), 1..8).prop_map(Twist::Noise),
        2 => any::<u8>().prop_map(Twist::Order),
        2 => (prop::collection::vec(0u8..6, 16), any::<bool>()).prop_map(|(t, k)| Twist::Tracks(t, k)),
        2 => any::<u8>().prop_map(Twist::Scale),
    ];
    (song(Cfg { noise: false, ..Default::default() }), prop::collection::vec(tw, 1..=3), prop::option::weighted(0.2, ctl_s()))
        .prop_map(|(mut g, mut twists, porta)| {
            // which notes are slid to depends on the voices
            let porta: Vec<Ctl> = porta.unwrap_or_default().into_iter().filter(|c| c.2 % 4 < 2).collect();
            if !porta.is_empty() {
                twists.retain(|t| !matches!(t, Twist::Tracks(..)));
            }
            g.ntracks = 1;
            g.on0 = false;
            g.running = false;
            g.on_first = false;
            TwistCase { g, twists, porta }
        })
        .boxed()
}

// ---------------------------------------------------------------- C20

/// Monophonic channels, each on its own voice, with portamento going on and off between notes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PortaG {
    /// a motif of steps per channel, repeated
    chans: Vec<(Vec<StepG>, u8)>,
    tpb: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StepG {
    gap: u16,
    len: u16,
    pitch: u8,
    vel: u8,
    /// controls right before the note: portamento switch value, time low, time high
    on: Option<u8>,
    lo: Option<u8>,
    hi: Option<u8>,
    /// the controls come at the end of the previous note (0), at the start of this one (1), while the previous
    /// one sounds (2)
    when: u8,
    vol: Option<u8>,
}

/// What a note of the file should become.
#[derive(Clone, Debug)]
struct PExp {
    start: u32,
    end: u32,
    pitch: u8,
    vel: u8,
    slide: Option<bool>,
    time: u8,
}

impl PortaG {
    fn compile(&self) -> (Smf, Vec<Vec<PExp>>) {
        let u = self.tpb as u32 / 24;
        let mut tracks = vec![];
        let mut want = vec![];
        for (ci, (steps, reps)) in self.chans.iter().enumerate() {
            let ch = if ci >= 9 { ci as u8 + 1 } else { ci as u8 };
            let mut ev: Vec<(u32, u8, MEv)> = vec![(0, 1, MEv::Prog { ch, prog: 73 })];
            let mut w: Vec<PExp> = vec![];
            let mut at = 0;
            let (mut on, mut lo, mut hi) = (0u8, 0u8, 0u8);
            let mut last_start = 0;
            for (k, s) in steps.iter().cycle().take(steps.len() * *reps as usize).enumerate() {
                let gap = if k == 0 { 0 } else { s.gap as u32 };
                let start = at + gap;
                let t = match s.when % 3 {
                    0 => at,
                    1 => start,
                    _ if at < last_start + 2 => at,
                    _ => (at + last_start) / 2,
                } * u;
                for (ctl, val, cur) in [(65, s.on, &mut on), (37, s.lo, &mut lo), (5, s.hi, &mut hi)] {
                    if let Some(v) = val {
                        ev.push((t, 1, MEv::Cc { ch, ctl, val: v }));
                        *cur = v;
                    }
                }
                if let Some(v) = s.vol {
                    ev.push((start * u, 1, MEv::Cc { ch, ctl: 7, val: v }));
                }
                let ticks = (hi as u32) << 8 | lo as u32;
                let time = ((ticks as u64 * 24 + self.tpb as u64 - 1) / self.tpb as u64).max(1).min(127) as u8;
                let slide = if on < 64 || k == 0 || gap > 0 {
                    Some(false)
                } else if s.vol.is_some() {
                    None
                } else {
                    Some(true)
                };
                let end = start + s.len as u32;
                ev.push((start * u, 2, MEv::On { ch, note: s.pitch, vel: s.vel }));
                ev.push((end * u, 0, MEv::Off { ch, note: s.pitch, vel: 0 }));
                w.push(PExp { start, end, pitch: fold_pitch(s.pitch) + 0x68, vel: (s.vel / 8).max(1), slide, time });
                last_start = start;
                at = end;
            }
            ev.sort_by_key(|e| (e.0, e.1));
            tracks.push(ev.into_iter().map(|e| (e.0, e.2)).collect());
            want.push(w);
        }
        (Smf { format: 1, tpb: self.tpb, tracks, running: false }, want)
    }
}

fn c20_check(g: &PortaG, o: &mut Obs) -> Verdict {
    let (smf, mut want) = g.compile();
    let bytes = encode(&smf);
    let mut prev: Option<Vec<Played>> = None;
    for opt in [false, true] {
        let img = match convert_midi(&bytes, 0.2, opt) {
            Outcome::Ok(i) => i,
            Outcome::Err(e) => return Err(format!("refused: {}", e)),
            Outcome::Panic(e) => return Err(format!("panics: {}", e)),
        };
        let p = img.play_all()?;
        if let Some(q) = &prev {
            same_playback(q, &p, "unoptimised", "optimised")?;
            continue;
        }
        // voices and channels, matched by their note lists
        let mut ob = observe(&p)?;
        if ob.totals.len() != want.len() {
            return Err(format!("{} voices for {} channels", ob.totals.len(), want.len()));
        }
        ob.notes.sort_by_key(|n| (n.voice, n.start));
        let mut got: Vec<Vec<OutNote>> = vec![vec![]; want.len()];
        for n in ob.notes {
            got[n.voice].push(n);
        }
        want.sort_by_key(|w| w.iter().map(|n| (n.start, n.pitch)).collect::<Vec<_>>());
        let mut order: Vec<usize> = (0..got.len()).collect();
        order.sort_by_key(|&v| got[v].iter().map(|n| (n.start as u32, n.pitch)).collect::<Vec<_>>());
        for (w, &v) in want.iter().zip(&order) {
            let g = &got[v];
            let slides: Vec<(u64, Vec<u8>, u8)> = slides_of(&p[v])?;
            if w.len() != g.len() {
                return Err(format!("{} notes in the channel, {} in its voice", w.len(), g.len()));
            }
            for (a, b) in w.iter().zip(g) {
                if (a.start as u64, a.pitch) != (b.start, b.pitch) {
                    return Err(format!("the note {:02x} at {} has become {:02x} at {}", a.pitch, a.start, b.pitch, b.start));
                }
                if let Some(s) = a.slide {
                    if s != b.slid {
                        return Err(format!("the note {:02x} at {} should {}", a.pitch, a.start, if s { "be reached by a slide" } else { "be struck, but is reached by a slide" }));
                    }
                }
                if !b.slid && a.vel != b.vel {
                    return Err(format!("the note {:02x} at {} has velocity {} instead of {}", a.pitch, a.start, b.vel, a.vel));
                }
                let len = (a.end - a.start) as f64;
                let (lo, hi) = b.sounding();
                if len < lo - 1e-6 || len > hi + 1e-6 {
                    return Err(format!("the note {:02x} at {} is {} units long, plays {} to {}", a.pitch, a.start, len, lo, hi));
                }
            }
            // each slide takes the time set, ending with the note before it where it can
            let slid: Vec<&PExp> = w.iter().zip(g).filter(|(_, b)| b.slid).map(|(a, _)| a).collect();
            if slides.len() != slid.len() {
                return Err(format!("{} pitch slides for {} notes", slides.len(), slid.len()));
            }
            for (a, (t, args, before)) in slid.iter().zip(&slides) {
                if *t != a.start as u64 {
                    return Err(format!("a slide at {} for the note at {}", t, a.start));
                }
                let delay = before - a.time.min(*before);
                if args[..] != [delay, a.time, a.pitch] {
                    return Err(format!(
                        "the slide to the note {:02x} at {} is {:02x?}, should be delay {} time {} to {:02x}",
                        a.pitch, a.start, args, delay, a.time, a.pitch
                    ));
                }
            }
            o.when(!slid.is_empty() && slid.len() + 1 < w.len(), "slid and struck notes");
            o.when(slid.iter().any(|a| a.time == 127), "longest slides");
        }
        o.nontrivial = want.iter().flatten().any(|a| a.slide == Some(true)) && want.iter().flatten().filter(|a| a.slide == Some(false)).count() > want.len();
        prev = Some(p);
    }
    o.when(prev.map_or(false, |p| p.len() > 1), "several channels");
    Ok(())
}

/// Time, operands and the duration of the command before each slide.
fn slides_of(p: &Played) -> Result<Vec<(u64, Vec<u8>, u8)>, String> {
    let mut t = 0;
    let mut out = vec![];
    let mut last = None;
    for (i, e) in p.evs.iter().enumerate() {
        if let Ev::Cmd { op: 0xf9, args } = e {
            let Some(d) = last else { return Err(format!("a slide at {} from nothing", t)) };
            if !matches!(p.evs.get(i + 1), Some(Ev::Tie { .. })) {
                return Err(format!("the slide at {} is not followed by a tie", t));
            }
            out.push((t, args.clone(), d));
        }
        if e.dur() > 0 {
            last = if matches!(e, Ev::Rest { .. }) { None } else { Some(e.dur() as u8) };
        }
        t += e.dur();
    }
    Ok(out)
}

fn c20_strategy(_: Tier) -> BoxedStrategy<PortaG> {
    let step = (
        prop_oneof![6 => Just(0u16), 1 => 1u16..=60],
        prop_oneof![6 => 1u16..=48, 1 => 100u16..=300, 1 => Just(127u16), 1 => Just(128u16)],
        pitch_s(true),
        vel_s(),
        prop_oneof![3 => Just(None), 2 => prop::sample::select(vec![Some(127u8), Some(64)]), 1 => prop::sample::select(vec![Some(0u8), Some(63)]), 1 => (0u8..128).prop_map(Some)],
        prop::option::weighted(0.3, 0u8..128),
        prop::option::weighted(0.15, prop_oneof![4 => 0u8..=2, 1 => 0u8..128]),
        0u8..3,
        prop::option::weighted(0.1, 0u8..128),
    )
        .prop_map(|(gap, len, pitch, vel, on, lo, hi, when, vol)| StepG { gap, len, pitch, vel, on, lo, hi, when, vol });
    let chan = (prop::collection::vec(step, 1..=10), prop_oneof![2 => Just(1u8), 1 => 2u8..=5]);
    (prop::collection::vec(chan, 1..=8), grid_tpb())
        .prop_map(|(chans, tpb)| PortaG { chans, tpb })
        .boxed()
}

/// Portamento controls anywhere in any song: every note is still there, at its time and pitch.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PortaAny {
    g: SongGen,
    ctl: Vec<(u8, Anchor, u8, u8)>,
}

fn c20_any(c: &PortaAny, o: &mut Obs) -> Verdict {
    let (smf, using) = add_portamento(&c.g, &c.ctl);
    let x = expect(&smf);
    let Some(img) = conv(&encode(&smf), &x, 0.2, false)? else { return Ok(()) };
    let p = img.play_all()?;
    let ob = observe(&p)?;
    let u = x.tpb as u32 / 24;
    let mut want: BTreeMap<(u64, u8), Vec<&ExpNote>> = BTreeMap::new();
    for n in &x.notes {
        want.entry(((n.start / u) as u64, n.pitch)).or_default().push(n);
    }
    let mut got: BTreeMap<(u64, u8), Vec<&OutNote>> = BTreeMap::new();
    for n in &ob.notes {
        got.entry((n.start, n.pitch)).or_default().push(n);
    }
    for (k, w) in &want {
        let g = got.get(k).map_or(0, |g| g.len());
        if g != w.len() {
            return Err(format!("{} notes of pitch {:02x} start at {}, {} in the song", w.len(), k.1, k.0, g));
        }
        // a channel that does not use portamento has its notes struck
        let plain = w.iter().filter(|n| !using.contains(&n.ch)).count();
        let struck = got[k].iter().filter(|n| !n.slid).count();
        if struck < plain {
            return Err(format!("a note of pitch {:02x} at {} is reached by a slide though its channel never turns portamento on", k.1, k.0));
        }
    }
    if x.notes.len() != ob.notes.len() {
        return Err(format!("{} notes in the file, {} in the song", x.notes.len(), ob.notes.len()));
    }
    let b = conv(&encode(&smf), &x, 0.2, true)?.ok_or("refused when optimised")?;
    same_playback(&p, &b.play_all()?, "unoptimised", "optimised")?;
    // a slide to a note belongs to a channel that has portamento on when the note starts, and takes that channel's time
    let mut ctls: Vec<(u32, u8, u8, u8)> = vec![];
    for t in &smf.tracks {
        for (at, e) in t {
            if let MEv::Cc { ch, ctl, val } = e {
                ctls.push((*at, *ch, *ctl, *val));
            }
        }
    }
    ctls.sort_by_key(|c| c.0);
    for v in &p {
        for (t, args, before) in slides_of(v)? {
            let mut times = vec![];
            for n in want.get(&(t, args[2])).into_iter().flatten() {
                let last = |ctl| ctls.iter().filter(|c| c.0 <= n.start && c.1 == n.ch && c.2 == ctl).last().map_or(0, |c| c.3);
                if last(65) >= 64 {
                    let ticks = (last(5) as u64) << 8 | last(37) as u64;
                    times.push(((ticks * 24 + x.tpb as u64 - 1) / x.tpb as u64).max(1).min(127) as u8);
                }
            }
            if times.is_empty() {
                return Err(format!("a slide to {:02x} at {}, where no channel with portamento on starts such a note", args[2], t));
            }
            if !times.contains(&args[1]) || args[0] != before - args[1].min(before) {
                return Err(format!("the slide to {:02x} at {} has delay {} and time {}, the channel's time is {:?}", args[2], t, args[0], args[1], times));
            }
            o.when(times.iter().any(|&t| t > 1), "slides that take time");
        }
    }
    o.nontrivial = ob.slides > 0 && ob.notes.len() > 3;
    o.when(ob.slides > 0, "slides");
    o.when(x.peak > x.channels, "chords");
    o.when(x.channels > ob.totals.len(), "channels share a voice");
    Ok(())
}

fn c20_any_s(_: Tier) -> BoxedStrategy<PortaAny> {
    (
        song(Cfg { grid: Some(true), long: false, noise: false, ..Default::default() }),
        prop::collection::vec((any::<u8>(), anchor_s(), any::<u8>(), 0u8..128), 1..=8),
    )
        .prop_map(|(g, ctl)| PortaAny { g, ctl })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            rule: "Generated JSON songs with all commands, missing parameters and calls, and converted MIDI songs; non-trivial: more than three commands / three notes.",
            assumptions: &["command meanings and operand counts per jsong.rs"],
            arms: vec![
                Box::new(Arm { name: "describe", cases: (6000, 80000), strategy: c10_js, check: c10_describe, fixed: none }),
                Box::new(Arm { name: "export", cases: (4000, 40000), strategy: c10_exp, check: c10_export, fixed: c10_fixed }),
            ],
        },
        Property {
            id: "C14",
            rule: "Generated songs with a drum channel (all keys, chords, program changes) next to channels that may share its voices; non-trivial: at least three drum notes and others.",
            assumptions: &["drum keys and instruments per perf.rs"],
            arms: vec![Box::new(Arm { name: "drums", cases: (10000, 120000), strategy: c14_strategy, check: c14_check, fixed: none })],
        },
        Property {
            id: "C16",
            rule: "Songs laid out in time slots with chosen numbers of notes per channel; non-trivial: six or more voices needed / more than eight channels / peaks adding up to more than eight.",
            assumptions: &[],
            arms: vec![
                Box::new(Arm { name: "fitting", cases: (30000, 600000), strategy: c16_fit_s, check: c16_fit, fixed: none }),
                Box::new(Arm { name: "groups", cases: (20000, 300000), strategy: c16_group_s, check: c16_group, fixed: none }),
                Box::new(Arm { name: "any", cases: (30000, 500000), strategy: c16_any_s, check: c16_any, fixed: none }),
            ],
        },
        Property {
            id: "C17",
            rule: "Generated songs, each against one to three equivalent rewritings of its file; non-trivial: at least three notes and a file that differs.",
            assumptions: &[],
            arms: vec![Box::new(Arm { name: "rewritten", cases: (8000, 100000), strategy: c17_strategy, check: c17_check, fixed: none })],
        },
        Property {
            id: "C20",
            rule: "Monophonic channels with portamento controls before, at and between notes, and any songs with such controls; non-trivial: notes both slid to and struck / slides.",
            assumptions: &["a slide (F9 delay time note) after a note is heard while that note lasts, the following tie is the new note"],
            arms: vec![
                Box::new(Arm { name: "lines", cases: (8000, 100000), strategy: c20_strategy, check: c20_check, fixed: none }),
                Box::new(Arm { name: "any", cases: (6000, 80000), strategy: c20_any_s, check: c20_any, fixed: none }),
            ],
        },
    ]
}
