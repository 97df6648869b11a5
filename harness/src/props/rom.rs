//! C06, C07, C08, C09, C11, C13, C15, C19: manifests, ROM files and the program.
use crate::gen::*;
use crate::jsong::*;
use crate::props::song::*;
use crate::romimg::*;
use crate::runner::*;
use crate::smf::*;
use crate::spc::*;
use crate::sut::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::path::{Path, PathBuf};

/// Slot names in the driver's order (reference table).
pub const NAMES: [&[&str]; 3] = [
    &[
        "Title", "World Map", "Beginning", "Rabbit", "Forest", "Intro", "Town", "Warp", "Dark World", "Master Sword",
        "File Select", "Soldier", "Mountain", "Shop", "Fanfare",
    ],
    &[
        "Castle", "Palace", "Cave", "Clear", "Church", "Boss", "Dungeon", "Psychic", "Secret Way", "Rescue", "Crystal",
        "Fountain", "Pyramid", "Kill Agahnim", "Ganon Room", "Last Boss",
    ],
    &["Triforce", "Ending", "Staff"],
];
pub const BANKS: [&str; 3] = ["overworld", "indoor", "ending"];
pub const FILE_SELECT: usize = 10;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SongSrc {
    J(JSong),
    M(SongGen),
}

impl SongSrc {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            SongSrc::J(j) => serde_json::to_vec(&j.to_json()).unwrap(),
            SongSrc::M(g) => encode(&g.compile()),
        }
    }
    pub fn ext(&self) -> &'static str {
        match self {
            SongSrc::J(_) => "json",
            SongSrc::M(_) => "mid",
        }
    }
}

/// Small songs of very different sizes.
pub fn song_src() -> BoxedStrategy<SongSrc> {
    let midi = song(Cfg { max_chans: 4, max_lines: 2, max_segs: 3, max_reps: 6, long: false, sections: false, wide_pitch: false, ..Default::default() });
    prop_oneof![
        3 => jsong_s(8, 12).prop_map(SongSrc::J),
        1 => jsong_s(3, 60).prop_map(SongSrc::J),
        1 => midi.prop_map(SongSrc::M),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cut {
    /// the first chunk ends with this piece of the bank (of all pieces, modulo)
    pub piece: u16,
    /// bytes left over there, modulo the size of the next piece; from 0xff00 on, 0x10000 - left bytes less than it
    pub left: u16,
    /// bytes left over in the second chunk
    pub slack: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RomCase {
    pub rom: RomG,
    pub songs: Vec<SongSrc>,
    /// song number and looping of each of the 34 slots
    pub slots: Vec<(u8, bool)>,
    pub cuts: Vec<Cut>,
    pub optimize: bool,
}

pub fn cut_s() -> BoxedStrategy<Cut> {
    let small = || prop_oneof![3 => Just(0u16), 2 => 1u16..4, 2 => 0u16..2000];
    (any::<u16>(), small(), small()).prop_map(|(piece, left, slack)| Cut { piece, left, slack }).boxed()
}

pub fn rom_case(wild: bool) -> BoxedStrategy<RomCase> {
    (
        rom_s(wild),
        prop::collection::vec(song_src(), 1..=5),
        prop::collection::vec((any::<u8>(), any::<bool>()), 34),
        prop::collection::vec(cut_s(), 3),
        any::<bool>(),
    )
        .prop_map(|(rom, songs, slots, cuts, optimize)| {
            let n = songs.len() as u8;
            RomCase { rom, songs, slots: slots.into_iter().map(|(s, l)| (s % n, l)).collect(), cuts, optimize }
        })
        .boxed()
}

/// Size of the pieces a song is placed in: header with part table, then each track.
fn pieces(img: &SongImage, loops: bool) -> Vec<usize> {
    let mut v = vec![if loops { 24 } else { 20 }];
    v.extend(img.tracks.iter().map(|t| t.len()).filter(|&n| n > 0));
    v
}

/// Places pieces in order; returns how much of the first chunk and of the second one is used.
fn place(pieces: &[usize], first: usize, len: usize) -> (usize, usize) {
    let mut at = first;
    for (i, &p) in pieces.iter().enumerate() {
        if at + p > len {
            return (at, pieces[i..].iter().sum());
        }
        at += p;
    }
    (at, 0)
}

pub struct Prepared {
    pub scratch: Scratch,
    pub images: Vec<SongImage>,
    pub manifest: PathBuf,
    pub rom_path: PathBuf,
    pub rom: Rom,
    /// bytes needed in each bank's chunks
    pub need: [(usize, usize); 3],
}

pub fn image_of_file(path: &Path, json: bool, factor: f32, optimize: bool) -> Outcome<SongImage> {
    if json {
        match sut(|| image_of(&midi2spc::nspc::Song::from_json(path))) {
            Ok(Ok(i)) => Outcome::Ok(i),
            Ok(Err(e)) => Outcome::Err(e),
            Err(p) => Outcome::Panic(p),
        }
    } else {
        convert_path(path, factor, optimize)
    }
}

pub fn manifest_value(file: impl Fn(usize) -> String, loops: impl Fn(usize) -> bool) -> Value {
    let mut m = Map::new();
    let mut k = 0;
    for b in 0..3 {
        let mut o = Map::new();
        for n in NAMES[b] {
            o.insert(n.to_string(), json!({"input": file(k), "loop": loops(k)}));
            k += 1;
        }
        m.insert(BANKS[b].into(), Value::Object(o));
    }
    Value::Object(m)
}

impl RomCase {
    /// Writes songs, manifest and a ROM whose chunks are laid out as the case says. None: songs do not convert.
    pub fn prepare(&self, shrink_second: Option<usize>) -> Result<Option<Prepared>, String> {
        self.prepare_with(shrink_second, None)
    }

    /// head: a bank whose song chunk has this length, the next one room for all songs
    pub fn prepare_with(&self, shrink_second: Option<usize>, head: Option<(usize, usize)>) -> Result<Option<Prepared>, String> {
        let scratch = Scratch::new();
        let mut images = vec![];
        for (i, s) in self.songs.iter().enumerate() {
            // (other songs that are named nearly the same)
            for e in ["mid", "json", "MID", "mid.json", "json.mid"].iter().filter(|&&e| e != s.ext()) {
                let other = if e.ends_with("json") {
                    json!({"parts": [{"tracks": [0]}], "tracks": [{"commands": [
                        {"duration": 9, "velocity": 9, "sustain": 7, "command": {"Note": 0x91}}
                    ]}]})
                    .to_string()
                    .into_bytes()
                } else {
                    chord_midi(2)
                };
                scratch.file(&format!("s{}.{}", i, e), &other);
            }
            let p = scratch.file(&format!("s{}.{}", i, s.ext()), &s.bytes());
            match image_of_file(&p, s.ext() == "json", 0.2, self.optimize) {
                Outcome::Ok(img) => images.push(img),
                Outcome::Err(_) | Outcome::Panic(_) => return Ok(None),
            }
        }
        let m = manifest_value(|k| format!("s{}.{}", self.slots[k].0, self.songs[self.slots[k].0 as usize].ext()), |k| self.slots[k].1);
        let manifest = scratch.file("manifest.json", &serde_json::to_vec(&m).unwrap());
        let mut lens = [(None, None); 3];
        let mut need = [(0, 0); 3];
        for b in 0..3 {
            let all: Vec<usize> =
                (SLOT0[b]..SLOT0[b] + SONGS[b]).flat_map(|k| pieces(&images[self.slots[k].0 as usize], self.slots[k].1)).collect();
            let c = &self.cuts[b];
            let mut n = c.piece as usize % (all.len() + 1);
            let first = FIRST[b];
            while first + all[..n].iter().sum::<usize>() > 0x2800 {
                n -= 1;
            }
            let next = all.get(n).copied().unwrap_or(64);
            let l1 = first + all[..n].iter().sum::<usize>() + if c.left >= 0xff00 { next.saturating_sub(0x10000 - c.left as usize) } else { c.left as usize % next };
            let (u1, u2) = place(&all, first, l1);
            need[b] = (u1, u2);
            if u2 > 0x6000 {
                return Ok(None);
            }
            let mut l2 = u2 + c.slack as usize % 0x800;
            if let Some(by) = shrink_second {
                // one bank is made too small
                if b == by % 3 {
                    if u2 == 0 {
                        return Ok(None);
                    }
                    l2 = u2 - 1 - c.slack as usize % u2.min(40);
                }
            }
            lens[b] = (Some(l1), Some(l2));
            if let Some((hb, l1)) = head.filter(|h| h.0 == b) {
                let all: usize = all.iter().sum();
                need[hb] = (FIRST[b], all);
                if all > 0x6000 {
                    return Ok(None);
                }
                lens[hb] = (Some(l1), Some(all + c.slack as usize % 0x800));
            }
        }
        let rom = self.rom.build(&lens);
        let rom_path = scratch.file("rom.smc", &rom.data);
        Ok(Some(Prepared { scratch, images, manifest, rom_path, rom, need }))
    }

    pub fn addrs(&self) -> [u32; 3] {
        self.rom.addrs()
    }
}

pub fn build_rom(manifest: &Path, rom: &Path, addrs: [u32; 3], optimize: bool, verbose: bool) -> Outcome<()> {
    match sut(|| {
        midi2spc::build_rom(manifest.to_str().unwrap(), rom.to_str().unwrap(), addrs, optimize, verbose).map_err(|e| format!("{}", e))
    }) {
        Ok(Ok(())) => Outcome::Ok(()),
        Ok(Err(e)) => Outcome::Err(e),
        Err(p) => Outcome::Panic(p),
    }
}

fn must_build(r: Outcome<()>) -> Verdict {
    match r {
        Outcome::Ok(()) => Ok(()),
        Outcome::Err(e) => Err(format!("building songs that fit failed: {}", e)),
        Outcome::Panic(p) => Err(format!("building songs that fit panicked: {}", p)),
    }
}

pub fn frame_check(rom: &Rom, after: &[u8]) -> Verdict {
    if after.len() != rom.data.len() {
        return Err(format!("the ROM was {} bytes long and is {}", rom.data.len(), after.len()));
    }
    let inside = |p: usize| rom.base.iter().chain(&rom.over).any(|&(s, l)| l > 0 && p >= s && p < s + l);
    for p in 0..after.len() {
        if after[p] != rom.data[p] && !inside(p) {
            let near = rom
                .base
                .iter()
                .chain(&rom.over)
                .map(|&(s, l)| format!("{:#x}..{:#x}", s, s + l))
                .collect::<Vec<_>>()
                .join(" ");
            return Err(format!("byte {:#x} outside the song data ({}) changed from {:02x} to {:02x}", p, near, rom.data[p], after[p]));
        }
    }
    Ok(())
}

fn labels(c: &RomCase, p: &Prepared, o: &mut Obs) -> bool {
    let switched = p.need.iter().filter(|n| n.1 > 0).count();
    let mut mid = false;
    for b in 0..3 {
        if p.need[b].1 > 0 {
            // switch inside a song: the remaining size is not a sum of whole songs
            let mut rest = 0;
            let mut whole = vec![0];
            for k in (SLOT0[b]..SLOT0[b] + SONGS[b]).rev() {
                rest += pieces(&p.images[c.slots[k].0 as usize], c.slots[k].1).iter().sum::<usize>();
                whole.push(rest);
            }
            if !whole.contains(&p.need[b].1) {
                mid = true;
            }
        }
    }
    o.when(switched == 3, "all banks continue in the second chunk");
    o.when(mid, "chunk switch inside a song");
    o.when(c.addrs() != DEFAULT_ADDRS, "other bank addresses");
    o.when(p.images.iter().any(|i| i.refs.iter().any(|r| !r.is_empty())), "songs with calls");
    o.when((0..3).any(|b| p.need[b].0 == p.rom.base[b].1 && p.need[b].1 == p.rom.over[b].1 && p.need[b].1 > 0), "a bank filled exactly");
    switched > 0
}

// ---------------------------------------------------------------- C06

fn c06_check(c: &RomCase, o: &mut Obs) -> Verdict {
    let Some(p) = c.prepare(None)? else { return Ok(()) };
    must_build(build_rom(&p.manifest, &p.rom_path, c.addrs(), c.optimize, false))?;
    let after = std::fs::read(&p.rom_path).map_err(|e| e.to_string())?;
    frame_check(&p.rom, &after)?;
    // the layout reads the same
    for a in c.addrs() {
        let d = |r: &[u8]| chain(r, a).map(|v| v.iter().map(|c| (c.header, c.len, c.aram)).collect::<Vec<_>>());
        if d(&p.rom.data)? != d(&after)? {
            return Err("the chunk chain changed".into());
        }
    }
    o.nontrivial = labels(c, &p, o);
    Ok(())
}

// ---------------------------------------------------------------- C07

pub fn slots_check(after: &[u8], addrs: [u32; 3], want: impl Fn(usize) -> Result<(Vec<Vec<Ev>>, bool), String>) -> Verdict {
    for b in 0..3 {
        let m = upload(after, addrs[b])?;
        for k in SLOT0[b]..SLOT0[b] + SONGS[b] {
            let what = || format!("slot {} ({}, {})", k, BANKS[b], NAMES[b][k - SLOT0[b]]);
            let s = slot(&m, k).map_err(|e| format!("{}: {}", what(), e))?;
            let (voices, loops) = want(k)?;
            if s.loops != loops {
                return Err(format!("{}: looping is {} but should be {}", what(), s.loops, loops));
            }
            for v in 0..8 {
                let w: &[Ev] = voices.get(v).map_or(&[], |v| &v[..]);
                let g = &s.voices[v].evs;
                if &g[..] != w {
                    let i = g.iter().zip(w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
                    return Err(format!(
                        "{}: voice {} plays {:?} at event {} of {}, should play {:?} (of {})",
                        what(),
                        v,
                        g.get(i),
                        i,
                        g.len(),
                        w.get(i),
                        w.len()
                    ));
                }
            }
        }
    }
    Ok(())
}

fn c07_check(c: &RomCase, o: &mut Obs) -> Verdict {
    let Some(p) = c.prepare(None)? else { return Ok(()) };
    // JSON songs have a reference interpreter; MIDI songs are played from the converted song itself
    let mut plays: Vec<Vec<Vec<Ev>>> = vec![];
    for (i, s) in c.songs.iter().enumerate() {
        plays.push(match s {
            SongSrc::J(j) => j.play(),
            SongSrc::M(_) => p.images[i].play_all()?.into_iter().map(|p| p.evs).collect(),
        });
    }
    must_build(build_rom(&p.manifest, &p.rom_path, c.addrs(), c.optimize, false))?;
    let after = std::fs::read(&p.rom_path).map_err(|e| e.to_string())?;
    slots_check(&after, c.addrs(), |k| Ok((plays[c.slots[k].0 as usize].clone(), c.slots[k].1)))?;
    o.nontrivial = labels(c, &p, o);
    Ok(())
}

fn tame(_: Tier) -> BoxedStrategy<RomCase> {
    rom_case(false)
}

fn wild(_: Tier) -> BoxedStrategy<RomCase> {
    rom_case(true)
}

// ---------------------------------------------------------------- C15

fn c15_fits(c: &RomCase, o: &mut Obs) -> Verdict {
    let Some(p) = c.prepare(None)? else { return Ok(()) };
    must_build(build_rom(&p.manifest, &p.rom_path, c.addrs(), c.optimize, false))?;
    let after = std::fs::read(&p.rom_path).map_err(|e| e.to_string())?;
    frame_check(&p.rom, &after)?;
    let full = (0..3).filter(|&b| p.need[b].0 == p.rom.base[b].1 && p.need[b].1 == p.rom.over[b].1).count();
    o.nontrivial = full > 0;
    o.when(full == 3, "all banks filled exactly");
    o.when((0..3).any(|b| p.rom.over[b].1 == 0), "a bank without second chunk");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HeadCase {
    c: RomCase,
    bank: u8,
    head: u16,
}

/// A song chunk that does not even hold the song table.
fn c15_head(t: &HeadCase, o: &mut Obs) -> Verdict {
    let b = t.bank as usize % 3;
    let len = 1 + t.head as usize % (2 * (SLOT0[b] + SONGS[b]) - 1);
    let Some(p) = t.c.prepare_with(None, Some((b, len)))? else { return Ok(()) };
    let r = build_rom(&p.manifest, &p.rom_path, t.c.addrs(), t.c.optimize, false);
    let after = std::fs::read(&p.rom_path).map_err(|e| e.to_string())?;
    o.nontrivial = true;
    match r {
        Outcome::Ok(()) => Err(format!("the song chunk of the {} bank has {} bytes, too few for its song table, but the build succeeded", BANKS[b], len)),
        Outcome::Panic(e) => Err(format!("the song chunk of the {} bank has {} bytes and the build panicked: {}", BANKS[b], len, e)),
        Outcome::Err(_) if after != p.rom.data => Err("the build failed but changed the ROM".into()),
        Outcome::Err(_) => Ok(()),
    }
}

fn head_s(_: Tier) -> BoxedStrategy<HeadCase> {
    (rom_case(false), 0u8..3, prop_oneof![1 => Just(65535u16), 2 => any::<u16>()]).prop_map(|(c, bank, head)| HeadCase { c, bank, head }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TightCase {
    c: RomCase,
    bank: u8,
}

fn c15_small(t: &TightCase, o: &mut Obs) -> Verdict {
    let Some(p) = t.c.prepare(Some(t.bank as usize))? else { return Ok(()) };
    let b = t.bank as usize % 3;
    let short = p.need[b].1 - p.rom.over[b].1;
    match build_rom(&p.manifest, &p.rom_path, t.c.addrs(), t.c.optimize, false) {
        Outcome::Ok(()) => return Err(format!("the {} bank is {} bytes too small but the build succeeded", BANKS[b], short)),
        Outcome::Panic(e) => return Err(format!("the {} bank is {} bytes too small and the build panicked: {}", BANKS[b], short, e)),
        Outcome::Err(_) => {}
    }
    let after = std::fs::read(&p.rom_path).map_err(|e| e.to_string())?;
    if after != p.rom.data {
        return Err("the build failed but changed the ROM".into());
    }
    o.nontrivial = true;
    o.when(short == 1, "one byte short");
    o.when(p.rom.over[b].1 == 0, "no second chunk");
    Ok(())
}

fn exact(_: Tier) -> BoxedStrategy<RomCase> {
    (rom_case(false), prop::collection::vec(prop_oneof![3 => Just((0u16, 0u16)), 1 => (0u16..3, 0u16..3), 2 => (0xfff8u16..=0xffff, 0u16..2)], 3))
        .prop_map(|(mut c, z)| {
            for (cut, (l, s)) in c.cuts.iter_mut().zip(z) {
                cut.left = l;
                cut.slack = s;
            }
            c
        })
        .boxed()
}

fn tight(_: Tier) -> BoxedStrategy<TightCase> {
    (rom_case(false), 0u8..3, prop_oneof![2 => Just(0u16), 1 => any::<u16>()])
        .prop_map(|(mut c, bank, s)| {
            c.cuts[bank as usize].slack = s;
            TightCase { c, bank }
        })
        .boxed()
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    MissingSong(u8),
    Garbage(u8, Vec<u8>),
    /// cut the song file after this fraction
    Truncated(u8, u16),
    NineVoices(u8),
    Format0(u8),
    BadJson(u8, u16),
    CallNowhere(u8),
    NoParts(u8),
    NineTracks(u8),
    NoFit(u8),
    ManifestCut(u16),
    MissingSlot(u8),
    MissingBank(u8),
    InputNotText(u8),
    NoSongChunk(u8),
    RomCut(u16),
    WildPointer(u8, u32),
    DirectoryAsSong(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    c: RomCase,
    fault: Fault,
}

pub fn chord_midi(n: u8) -> Vec<u8> {
    let mut t = vec![];
    for i in 0..n {
        t.push((0, MEv::On { ch: 0, note: 50 + i, vel: 90 }));
    }
    for i in 0..n {
        t.push((96, MEv::Off { ch: 0, note: 50 + i, vel: 0 }));
    }
    encode(&Smf { format: 1, tpb: 96, tracks: vec![t], running: false })
}

fn c08_check(f: &FaultCase, o: &mut Obs) -> Verdict {
    let c = &f.c;
    let shrink = if let Fault::NoFit(b) = f.fault { Some(b as usize) } else { None };
    let Some(mut p) = c.prepare(shrink)? else { return Ok(()) };
    let mut m: Value = serde_json::from_slice(&std::fs::read(&p.manifest).unwrap()).unwrap();
    let (mut slot_no, mut bank_no) = (99usize, 99usize);
    let mut set = |m: &mut Value, k: u8, v: Value| {
        let k = k as usize % 34;
        let b = (0..3).rev().find(|&b| k >= SLOT0[b]).unwrap();
        slot_no = k;
        bank_no = b;
        m[BANKS[b]][NAMES[b][k - SLOT0[b]]] = v;
    };
    let broken = |name: &str, data: &[u8]| -> Value {
        p.scratch.file(name, data);
        json!({ "input": name })
    };
    let mut manifest_cut = None;
    match &f.fault {
        Fault::MissingSong(k) => set(&mut m, *k, json!({"input": "nothing.mid"})),
        Fault::Garbage(k, d) => set(&mut m, *k, broken("bad.mid", d)),
        Fault::Truncated(k, n) => {
            let d = c.songs.iter().find(|s| s.ext() == "mid").map_or(chord_midi(4), |s| s.bytes());
            let n = *n as usize * d.len() / 65536;
            set(&mut m, *k, broken("bad.mid", &d[..n]))
        }
        Fault::NineVoices(k) => set(&mut m, *k, broken("bad.mid", &chord_midi(9))),
        Fault::Format0(k) => {
            let mut d = chord_midi(3);
            d[9] = 0;
            set(&mut m, *k, broken("bad.mid", &d))
        }
        Fault::BadJson(k, n) => {
            let d = c.songs.iter().find(|s| s.ext() == "json").map_or(b"{}".to_vec(), |s| s.bytes());
            let n = *n as usize * d.len() / 65536;
            set(&mut m, *k, broken("bad.json", &d[..n]))
        }
        Fault::CallNowhere(k) => {
            let d = br#"{"parts":[{"tracks":[0]}],"tracks":[{"commands":[{"duration":5,"velocity":null,"sustain":null,"command":{"CallLoop":[7,1]}}]}]}"#;
            set(&mut m, *k, broken("bad.json", d))
        }
        Fault::NoParts(k) => {
            let d = br#"{"parts":[],"tracks":[{"commands":[{"duration":5,"velocity":null,"sustain":null,"command":"Rest"}]}]}"#;
            set(&mut m, *k, broken("bad.json", d))
        }
        Fault::NineTracks(k) => {
            // of nine or more voices some may be empty
            let n = 9 + *k as usize % 3;
            let tracks: Vec<serde_json::Value> = (0..n)
                .map(|i| {
                    let rest = json!([{"duration": 5, "velocity": null, "sustain": null, "command": "Rest"}]);
                    json!({"commands": if *k as usize % 7 > 2 && (i + *k as usize) % 5 == 0 { json!([]) } else { rest }})
                })
                .collect();
            let part: Vec<usize> = (0..n).map(|i| if *k % 4 == 0 { 0 } else { i }).collect();
            set(&mut m, *k, broken("bad.json", json!({"parts": [{"tracks": part}], "tracks": tracks}).to_string().as_bytes()))
        }
        Fault::NoFit(_) => {}
        Fault::ManifestCut(n) => manifest_cut = Some(*n),
        Fault::MissingSlot(k) => {
            let k = *k as usize % 34;
            let b = (0..3).rev().find(|&b| k >= SLOT0[b]).unwrap();
            m[BANKS[b]].as_object_mut().unwrap().remove(NAMES[b][k - SLOT0[b]]);
        }
        Fault::MissingBank(b) => {
            m.as_object_mut().unwrap().remove(BANKS[*b as usize % 3]);
        }
        Fault::InputNotText(k) => set(&mut m, *k, json!({"input": 5})),
        Fault::DirectoryAsSong(k) => {
            std::fs::create_dir_all(p.scratch.0.join("dir.mid")).unwrap();
            set(&mut m, *k, json!({"input": "dir.mid"}))
        }
        Fault::NoSongChunk(b) => {
            let b = *b as usize % 3;
            let h = p.rom.base[b].0 - 4;
            p.rom.data[h + 3] = 0xc0;
        }
        Fault::RomCut(n) => {
            let n = *n as usize * p.rom.data.len() / 65536;
            p.rom.data.truncate(n);
        }
        Fault::WildPointer(b, v) => {
            let a = c.addrs()[*b as usize % 3];
            for i in 0..3 {
                p.rom.data[pc_of_snes(a + 4 * i)] = (v >> (8 * i)) as u8;
            }
        }
    }
    let mut text = serde_json::to_vec(&m).unwrap();
    if let Some(n) = manifest_cut {
        let n = n as usize * text.len() / 65536;
        text.truncate(n);
    }
    std::fs::write(&p.manifest, &text).unwrap();
    std::fs::write(&p.rom_path, &p.rom.data).unwrap();
    let r = build_rom(&p.manifest, &p.rom_path, c.addrs(), c.optimize, false);
    let after = std::fs::read(&p.rom_path).map_err(|e| e.to_string())?;
    let kind = format!("{:?}", f.fault);
    let kind = kind.split(|c: char| !c.is_alphanumeric()).next().unwrap();
    if r.failed() {
        if after != p.rom.data {
            let at = after.iter().zip(&p.rom.data).position(|(a, b)| a != b).unwrap_or(after.len().min(p.rom.data.len()));
            return Err(format!(
                "the build failed ({}) but the ROM changed from {} to {} bytes, first at {:#x}",
                match r {
                    Outcome::Err(e) => e,
                    Outcome::Panic(e) => e,
                    _ => String::new(),
                },
                p.rom.data.len(),
                after.len(),
                at
            ));
        }
        o.nontrivial = true;
        o.label(&format!("failed: {}", kind));
        o.when(slot_no < 34 && slot_no > 0, "fault after the first song");
        o.when(bank_no == 2, "fault in the last bank");
    } else {
        let unusable = matches!(
            f.fault,
            Fault::MissingSong(_)
                | Fault::NineVoices(_)
                | Fault::CallNowhere(_)
                | Fault::NineTracks(_)
                | Fault::NoFit(_)
                | Fault::MissingSlot(_)
                | Fault::MissingBank(_)
                | Fault::InputNotText(_)
                | Fault::DirectoryAsSong(_)
        );
        if unusable {
            return Err(format!("a build with an unusable input ({}) succeeds", kind));
        }
        o.label(&format!("built all the same: {}", kind));
    }
    Ok(())
}

fn c08_strategy(_: Tier) -> BoxedStrategy<FaultCase> {
    let k = || prop_oneof![3 => 0u8..34, 1 => Just(33u8), 1 => Just(0u8)];
    let fault = prop_oneof![
        k().prop_map(Fault::MissingSong),
        (k(), prop::collection::vec(any::<u8>(), 0..60)).prop_map(|(k, d)| Fault::Garbage(k, d)),
        (k(), any::<u16>()).prop_map(|(k, n)| Fault::Truncated(k, n)),
        k().prop_map(Fault::NineVoices),
        k().prop_map(Fault::Format0),
        (k(), any::<u16>()).prop_map(|(k, n)| Fault::BadJson(k, n)),
        k().prop_map(Fault::CallNowhere),
        k().prop_map(Fault::NoParts),
        k().prop_map(Fault::NineTracks),
        (0u8..3).prop_map(Fault::NoFit),
        any::<u16>().prop_map(Fault::ManifestCut),
        k().prop_map(Fault::MissingSlot),
        (0u8..3).prop_map(Fault::MissingBank),
        k().prop_map(Fault::InputNotText),
        k().prop_map(Fault::DirectoryAsSong),
        (0u8..3).prop_map(Fault::NoSongChunk),
        any::<u16>().prop_map(Fault::RomCut),
        (0u8..3, any::<u32>()).prop_map(|(b, v)| Fault::WildPointer(b, v)),
    ];
    (rom_case(false), fault).prop_map(|(c, fault)| FaultCase { c, fault }).boxed()
}

// ---------------------------------------------------------------- C09

fn c09_convert(s: &Src, o: &mut Obs) -> Verdict {
    let Some((_, bytes)) = s.load() else { return Ok(()) };
    let flat = |r: Outcome<SongImage>| match r {
        Outcome::Ok(i) => Ok((i.tracks, i.part)),
        Outcome::Err(_) => Err("refused"),
        Outcome::Panic(_) => Err("panic"),
    };
    let a = flat(convert_midi(&bytes, 0.2, true));
    for run in 1..4 {
        let b = flat(convert_midi_v(&bytes, 0.2, true, run == 3));
        if a != b {
            let what = match (&a, &b) {
                (Ok(x), Ok(y)) => format!(
                    "{} tracks of {} bytes and then {} of {}",
                    x.0.len(),
                    x.0.iter().map(|t| t.len()).sum::<usize>(),
                    y.0.len(),
                    y.0.iter().map(|t| t.len()).sum::<usize>()
                ),
                _ => format!("{:?} and then {:?}", a.as_ref().err(), b.as_ref().err()),
            };
            return Err(format!("converting the same file again{} gives {}", if run == 3 { " with verbose output" } else { "" }, what));
        }
    }
    if let Ok((t, p)) = &a {
        o.nontrivial = t.len() > p.len();
        o.when(t.len() > p.len() + 1, "several subroutines");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase {
    c: RomCase,
    /// each build: rotation of the slot assignment, a fault or not, verbose
    steps: Vec<(u8, Option<u8>, bool)>,
}

fn c09_history(h: &HistCase, o: &mut Obs) -> Verdict {
    let mut c = h.c.clone();
    for k in c.cuts.iter_mut() {
        // room for any assignment of the songs
        k.piece = 5;
        k.slack = 0x7ff;
    }
    let Some(p) = c.prepare(None)? else { return Ok(()) };
    let worst = (0..3).map(|b| p.images.iter().map(|i| pieces(i, true).iter().sum::<usize>()).max().unwrap() * SONGS[b] + 0x100).collect::<Vec<_>>();
    if worst.iter().any(|&w| w > 0x9000) {
        return Ok(());
    }
    let rom = c.rom.build(&[0, 1, 2].map(|b| (Some(0x200), Some(worst[b]))));
    std::fs::write(&p.rom_path, &rom.data).unwrap();
    let mut plays: Vec<Vec<Vec<Ev>>> = vec![];
    for i in &p.images {
        plays.push(i.play_all()?.into_iter().map(|p| p.evs).collect());
    }
    let n = c.songs.len();
    let mut seen: Vec<(u8, Vec<u8>)> = vec![];
    let (mut fresh, mut failed) = (0, 0);
    for (rot, fault, verbose) in &h.steps {
        let song = |k: usize| (c.slots[k].0 as usize + *rot as usize) % n;
        let loops = |k: usize| c.slots[(k + *rot as usize) % 34].1;
        let mut m = manifest_value(|k| format!("s{}.{}", song(k), c.songs[song(k)].ext()), loops);
        if let Some(k) = fault {
            let k = *k as usize % 34;
            let b = (0..3).rev().find(|&b| k >= SLOT0[b]).unwrap();
            m[BANKS[b]][NAMES[b][k - SLOT0[b]]] = json!({"input": "nothing.mid"});
        }
        std::fs::write(&p.manifest, serde_json::to_vec(&m).unwrap()).unwrap();
        let before = std::fs::read(&p.rom_path).unwrap();
        let r = build_rom(&p.manifest, &p.rom_path, c.addrs(), c.optimize, *verbose);
        let after = std::fs::read(&p.rom_path).unwrap();
        if fault.is_some() {
            if !r.failed() {
                return Err("a build with a missing song succeeded".into());
            }
            if after != before {
                return Err("a failed build in a series changed the ROM".into());
            }
            failed += 1;
            continue;
        }
        must_build(r)?;
        frame_check(&rom, &after)?;
        slots_check(&after, c.addrs(), |k| Ok((plays[song(k)].clone(), loops(k))))?;
        // the same build right after itself, and into the original ROM
        let again = p.scratch.file("again.smc", &after);
        must_build(build_rom(&p.manifest, &again, c.addrs(), c.optimize, !*verbose))?;
        if std::fs::read(&again).unwrap() != after {
            return Err("building again into the built ROM changed it".into());
        }
        let orig = p.scratch.file("orig.smc", &rom.data);
        must_build(build_rom(&p.manifest, &orig, c.addrs(), c.optimize, false))?;
        let first = std::fs::read(&orig).unwrap();
        match seen.iter().find(|s| s.0 == *rot) {
            Some(s) if s.1 != first => return Err("building the same songs into the original ROM gave different bytes than before".into()),
            _ => seen.push((*rot, first.clone())),
        }
        if fresh == 0 && failed == 0 && first != after {
            return Err("two first builds from the same inputs differ".into());
        }
        fresh += 1;
    }
    o.nontrivial = fresh > 1;
    o.when(failed > 0, "with failed builds");
    o.when(fresh > 2, "three or more builds");
    Ok(())
}

fn c09_hist_s(_: Tier) -> BoxedStrategy<HistCase> {
    (rom_case(false), prop::collection::vec((0u8..6, prop::option::weighted(0.25, 0u8..34), prop::bool::weighted(0.3)), 2..=4))
        .prop_map(|(c, steps)| HistCase { c, steps })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TogetherCase {
    cases: Vec<RomCase>,
}

/// Builds of several ROMs in one folder at the same time do what each of them does alone.
fn c09_together(c: &TogetherCase, o: &mut Obs) -> Verdict {
    let mut ready = vec![];
    for case in &c.cases {
        let Some(p) = case.prepare(None)? else { continue };
        must_build(build_rom(&p.manifest, &p.rom_path, case.addrs(), case.optimize, false))?;
        let alone = std::fs::read(&p.rom_path).unwrap();
        ready.push((case.clone(), p, alone));
    }
    let shared = Scratch::new();
    let barrier = std::sync::Barrier::new(ready.len());
    let result = std::thread::scope(|scope| {
        let threads: Vec<_> = ready
            .iter()
            .enumerate()
            .map(|(i, (case, p, alone))| {
                let (barrier, shared) = (&barrier, &shared);
                scope.spawn(move || -> Verdict {
                    let rom = shared.file(&format!("rom{}.smc", i), &p.rom.data);
                    barrier.wait();
                    for round in 0..2 {
                        must_build(build_rom(&p.manifest, &rom, case.addrs(), case.optimize, false))?;
                        if &std::fs::read(&rom).unwrap() != alone {
                            return Err(format!("building ROM {} while others are built gives other bytes than building it alone (round {})", i, round));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        threads.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect::<Verdict>()
    });
    result?;
    o.nontrivial = ready.len() > 1;
    Ok(())
}

fn c09_together_s(_: Tier) -> BoxedStrategy<TogetherCase> {
    prop::collection::vec(rom_case(false), 2..=4).prop_map(|cases| TogetherCase { cases }).boxed()
}

fn c09_song(t: Tier) -> BoxedStrategy<Src> {
    prop_oneof![4 => song(Cfg { max_reps: 6, holds: true, ..Default::default() }).prop_map(Src::Gen), 1 => porta_s(t)].boxed()
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EntryG {
    /// 0: plain name, 1: in a subfolder, 2: with a detour, 3: absolute, 4: up and down again
    style: u8,
    tempo: Option<f64>,
    int_tempo: bool,
    loops: Option<bool>,
    ext: u8,
    extra: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManifestCase {
    entries: Vec<EntryG>,
    order: Vec<u8>,
    bank_order: Vec<u8>,
    /// how the manifest itself is named: absolute, relative with folder, bare name, dotted, from elsewhere
    at: u8,
    pretty: bool,
    extra: bool,
    #[serde(default)]
    linked: bool,
}

fn c11_check(c: &ManifestCase, o: &mut Obs) -> Verdict {
    let sc = Scratch::new();
    let home = sc.0.join("home");
    let dir = home.join("songs of mine");
    if c.linked {
        // the subfolder is somewhere else, and so is what ".." leads to from there
        std::fs::create_dir_all(home.join("shelf").join("box")).unwrap();
        std::fs::create_dir_all(&dir).unwrap();
        std::os::unix::fs::symlink("../shelf/box", dir.join("sub")).unwrap();
        o.label("subfolder is a symbolic link");
    } else {
        std::fs::create_dir_all(dir.join("sub")).unwrap();
    }
    std::fs::create_dir_all(home.join("elsewhere")).unwrap();
    let real = |k: usize, e: &EntryG| -> (String, PathBuf) {
        let name = format!("slot {}.{}", k, ["mid", "json", "MID"][e.ext as usize % 3]);
        let (text, path) = match e.style % 5 {
            0 => (name.clone(), dir.join(&name)),
            1 => (format!("sub/{}", name), dir.join("sub").join(&name)),
            2 if c.linked => {
                std::fs::write(dir.join(&name), "decoy").unwrap();
                (format!("./sub/../{}", name), home.join("shelf").join(&name))
            }
            2 => (format!("./sub/../{}", name), dir.join(&name)),
            3 => {
                let p = home.join("elsewhere").join(&name);
                (p.to_str().unwrap().to_string(), p)
            }
            _ => (format!("../elsewhere/{}", name), home.join("elsewhere").join(&name)),
        };
        std::fs::write(&path, k.to_string()).unwrap();
        (text, path)
    };
    let mut keys: Vec<(u8, usize)> = c.order.iter().copied().zip(0..34).collect();
    keys.sort();
    let mut paths = vec![PathBuf::new(); 34];
    let mut parts: [Vec<String>; 3] = Default::default();
    for (_, k) in keys {
        let e = &c.entries[k];
        let b = (0..3).rev().find(|&b| k >= SLOT0[b]).unwrap();
        let (text, path) = real(k, e);
        paths[k] = path;
        let mut f = vec![format!("\"input\": {}", json!(text))];
        if let Some(t) = e.tempo {
            f.push(if e.int_tempo { format!("\"tempoAdjust\": {}", t as i64) } else { format!("\"tempoAdjust\": {:?}", t) });
        }
        if let Some(l) = e.loops {
            f.push(format!("\"loop\": {}", l));
        }
        if e.extra {
            f.push("\"comment\": {\"input\": \"wrong.mid\", \"loop\": false}".into());
        }
        if k % 2 == 1 {
            f.reverse();
        }
        parts[b].push(format!("\"{}\": {{{}}}", NAMES[b][k - SLOT0[b]], f.join(", ")));
    }
    let mut banks: Vec<(u8, usize)> = c.bank_order.iter().copied().zip(0..3).collect();
    banks.sort();
    let sep = if c.pretty { ",\n  " } else { "," };
    let mut text: Vec<String> = banks.iter().map(|&(_, b)| format!("\"{}\": {{{}}}", BANKS[b], parts[b].join(sep))).collect();
    if c.extra {
        text.push("\"Overworld\": {\"Title\": {\"input\": \"wrong.mid\"}}".into());
        text.insert(0, "\"version\": 3".into());
    }
    let text = format!("{{{}}}", text.join(sep));
    std::fs::write(dir.join("my manifest.json"), text).unwrap();
    let cwd = std::env::current_dir().unwrap();
    let away = sc.0.join("away").join("here");
    let (wd, name): (&Path, PathBuf) = match c.at % 5 {
        0 => (&away, dir.join("my manifest.json")),
        1 => (&home, "songs of mine/my manifest.json".into()),
        2 => (&dir, "my manifest.json".into()),
        3 => (&dir, "./../songs of mine/my manifest.json".into()),
        _ => (&away, "../../home/songs of mine/my manifest.json".into()),
    };
    if wd != &dir {
        // other songs where the entries would lead from the working folder
        std::fs::create_dir_all(wd.join("sub")).unwrap();
        std::fs::create_dir_all(wd.parent().unwrap().join("elsewhere")).unwrap();
        for (k, e) in c.entries.iter().enumerate() {
            let name = format!("slot {}.{}", k, ["mid", "json", "MID"][e.ext as usize % 3]);
            for d in [wd.join(&name), wd.join("sub").join(&name), wd.parent().unwrap().join("elsewhere").join(&name)] {
                std::fs::write(d, "decoy").unwrap();
            }
        }
        o.label("other songs of the same names in the working folder");
    }
    std::env::set_current_dir(wd).unwrap();
    let r = sut(|| midi2spc::manifest::Manifest::new(&name).map_err(|e| format!("{}", e)));
    let verdict = (|| {
        let m = match r {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return Err(format!("valid manifest refused: {}", e)),
            Err(p) => return Err(format!("valid manifest panics: {}", p)),
        };
        for b in 0..3 {
            if m.banks[b].songs.len() != SONGS[b] {
                return Err(format!("bank {} has {} songs", b, m.banks[b].songs.len()));
            }
            for (i, s) in m.banks[b].songs.iter().enumerate() {
                let k = SLOT0[b] + i;
                let e = &c.entries[k];
                let input = s.input.as_ref().ok_or_else(|| format!("slot {} has no song", k))?;
                let got = std::fs::canonicalize(input).map_err(|x| format!("slot {}: {:?}: {}", k, input, x))?;
                let want = std::fs::canonicalize(&paths[k]).unwrap();
                if got != want {
                    return Err(format!("slot {} ({}) has song {:?} instead of {:?}", k, NAMES[b][i], got, want));
                }
                let t = e.tempo.map_or(0.2f32, |t| if e.int_tempo { t as i64 as f32 } else { t as f32 });
                if s.tempo_factor != t {
                    return Err(format!("slot {} has tempo factor {} instead of {}", k, s.tempo_factor, t));
                }
                if s.loops != e.loops.unwrap_or(true) {
                    return Err(format!("slot {} loops: {} instead of {:?}", k, s.loops, e.loops));
                }
            }
        }
        Ok(())
    })();
    std::env::set_current_dir(&cwd).unwrap();
    verdict?;
    o.nontrivial = c.entries.iter().any(|e| e.style % 5 != 3) && c.entries.iter().any(|e| e.tempo.is_none());
    o.when(c.at % 5 == 2, "manifest given by bare name");
    o.when(c.at % 5 == 0, "manifest given by absolute path");
    Ok(())
}

fn c11_strategy(_: Tier) -> BoxedStrategy<ManifestCase> {
    let e = (0u8..5, prop::option::of(prop_oneof![0.05f64..3.0, Just(0.25), Just(1.0), Just(2.0)]), any::<bool>(), prop::option::of(any::<bool>()), 0u8..3, any::<bool>())
        .prop_map(|(style, tempo, int_tempo, loops, ext, extra)| EntryG { style, tempo, int_tempo: int_tempo && tempo.map_or(false, |t| t >= 1.0), loops, ext, extra });
    (prop::collection::vec(e, 34), prop::collection::vec(any::<u8>(), 34), prop::collection::vec(any::<u8>(), 3), 0u8..5, any::<bool>(), any::<bool>(), any::<bool>())
        .prop_map(|(entries, order, bank_order, at, pretty, extra, linked)| ManifestCase { entries, order, bank_order, at, pretty, extra, linked })
        .boxed()
}

/// The tempo factor and looping of each entry reach the ROM.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SlotTempoCase {
    rom: RomG,
    /// per slot: tempo of the song (us/beat), factor, loops
    slots: Vec<(u32, Option<f32>, Option<bool>)>,
    cuts: Vec<u16>,
}

fn c11_rom(c: &SlotTempoCase, o: &mut Obs) -> Verdict {
    let sc = Scratch::new();
    let mut m = manifest_value(|k| format!("{}.mid", k), |_| true);
    let mut imgs = vec![];
    for k in 0..34 {
        let b = (0..3).rev().find(|&b| k >= SLOT0[b]).unwrap();
        let (us, f, l) = c.slots[k];
        let ev = vec![
            (0, MEv::Tempo(us)),
            (0, MEv::On { ch: 0, note: 30 + k as u8, vel: 99 }),
            (48, MEv::Off { ch: 0, note: 30 + k as u8, vel: 0 }),
        ];
        let p = sc.file(&format!("{}.mid", k), &encode(&Smf { format: 1, tpb: 48, tracks: vec![ev], running: false }));
        let e = &mut m[BANKS[b]][NAMES[b][k - SLOT0[b]]];
        e.as_object_mut().unwrap().remove("loop");
        if let Some(f) = f {
            e["tempoAdjust"] = json!(f);
        }
        if let Some(l) = l {
            e["loop"] = json!(l);
        }
        match convert_path(&p, f.unwrap_or(0.2), true) {
            Outcome::Ok(i) => imgs.push(i),
            _ => return Err("a one-note song does not convert".into()),
        }
    }
    let mp = sc.file("m.json", &serde_json::to_vec(&m).unwrap());
    let mut lens = [(None, None); 3];
    for b in 0..3 {
        lens[b] = (Some(FIRST[b] + c.cuts[b] as usize % 700), Some(1200));
    }
    let rom = c.rom.build(&lens);
    let rp = sc.file("r.smc", &rom.data);
    must_build(build_rom(&mp, &rp, c.rom.addrs(), true, false))?;
    let after = std::fs::read(&rp).unwrap();
    for b in 0..3 {
        let mem = upload(&after, c.rom.addrs()[b])?;
        for k in SLOT0[b]..SLOT0[b] + SONGS[b] {
            let s = slot(&mem, k).map_err(|e| format!("slot {}: {}", k, e))?;
            let (us, f, l) = c.slots[k];
            let ev: Vec<&Ev> = s.voices.iter().flat_map(|v| &v.evs).collect();
            let pitch = 30 + k as u8 + 0x68;
            if !ev.iter().any(|e| matches!(e, Ev::Note { pitch: p, .. } if *p == pitch)) {
                return Err(format!("slot {} ({} {}) does not play its own song", k, BANKS[b], NAMES[b][k - SLOT0[b]]));
            }
            let t = 6e7 / us as f64 * f.unwrap_or(0.2) as f64;
            let got = ev.iter().find_map(|e| match e {
                Ev::Cmd { op: 0xe7, args } => Some(args[0] as f64),
                _ => None,
            });
            match got {
                Some(g) if g > t - 1.001 && g < t + f.unwrap_or(0.2) as f64 + 0.001 => {}
                g => return Err(format!("slot {}: tempo {:?} instead of about {:.2}", k, g, t)),
            }
            if s.loops != l.unwrap_or(true) {
                return Err(format!("slot {}: looping is {} instead of {:?}", k, s.loops, l));
            }
        }
    }
    o.nontrivial = true;
    Ok(())
}

fn c11_rom_s(_: Tier) -> BoxedStrategy<SlotTempoCase> {
    let s = (prop_oneof![Just(500_000u32), 300_000u32..2_000_000], prop::option::of(0.1f32..1.2), prop::option::of(any::<bool>()));
    (rom_s(true), prop::collection::vec(s, 34), prop::collection::vec(any::<u16>(), 3)).prop_map(|(rom, slots, cuts)| SlotTempoCase { rom, slots, cuts }).boxed()
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FakeCase {
    c: RomCase,
    /// length of an existing output file
    old: Option<u32>,
    /// first another attempt, with the ROM itself as output, under one of its names
    #[serde(default)]
    itself: Option<u8>,
}

fn c13_check(f: &FakeCase, o: &mut Obs) -> Verdict {
    let c = &f.c;
    let Some(p) = c.prepare(None)? else { return Ok(()) };
    let out = p.scratch.0.join("fake.smc");
    if let Some(n) = f.itself {
        let other = match n % 4 {
            0 => p.rom_path.clone(),
            1 => p.scratch.0.join(".").join("rom.smc"),
            2 => p.scratch.0.join("..").join(p.scratch.0.file_name().unwrap()).join("rom.smc"),
            _ => {
                std::os::unix::fs::symlink(&p.rom_path, p.scratch.0.join("link.smc")).unwrap();
                p.scratch.0.join("link.smc")
            }
        };
        let r = sut(|| midi2spc::rom::gen_fake_rom(&p.rom_path, &other, c.addrs()).map_err(|e| format!("{}", e)));
        if std::fs::read(&p.rom_path).unwrap() != p.rom.data {
            return Err(format!("a fake ROM of {:?} written to {:?} changed the real ROM", p.rom_path.file_name().unwrap(), other));
        }
        if let Ok(Ok(())) = r {
            return Err(format!("a fake ROM of {:?} written to {:?} changed nothing, but succeeded", p.rom_path.file_name().unwrap(), other));
        }
    }
    if let Some(n) = f.old {
        std::fs::write(&out, vec![0xa5u8; n as usize]).unwrap();
    }
    match sut(|| midi2spc::rom::gen_fake_rom(&p.rom_path, &out, c.addrs()).map_err(|e| format!("{}", e))) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("generating a fake ROM failed: {}", e)),
        Err(e) => return Err(format!("generating a fake ROM panicked: {}", e)),
    }
    if std::fs::read(&p.rom_path).unwrap() != p.rom.data {
        return Err("the real ROM changed".into());
    }
    let fake = std::fs::read(&out).map_err(|e| e.to_string())?;
    let mut want = vec![0u8; p.rom.data.len()];
    let mut keep = |a: usize| want[a] = p.rom.data[a];
    for a in c.addrs() {
        for i in 0..3 {
            keep(pc_of_snes(a + 4 * i));
        }
        for k in chain(&p.rom.data, a)? {
            for i in 0..4 {
                keep(k.header + i);
            }
        }
    }
    if fake.len() != want.len() {
        return Err(format!("the real ROM is {} bytes long, the fake one {}", want.len(), fake.len()));
    }
    if let Some(i) = (0..want.len()).find(|&i| want[i] != fake[i]) {
        return Err(format!("byte {:#x} of the fake ROM is {:02x}, should be {:02x}", i, fake[i], want[i]));
    }
    // a build goes into both alike
    must_build(build_rom(&p.manifest, &p.rom_path, c.addrs(), c.optimize, false))?;
    must_build(build_rom(&p.manifest, &out, c.addrs(), c.optimize, false)).map_err(|e| format!("in the fake ROM: {}", e))?;
    let (a, b) = (std::fs::read(&p.rom_path).unwrap(), std::fs::read(&out).unwrap());
    for bank in 0..3 {
        for (at, used) in [(p.rom.base[bank].0, p.need[bank].0), (p.rom.over[bank].0, p.need[bank].1)] {
            // (the entries of the song table before the bank's own belong to the other banks)
            let from = if at == p.rom.base[bank].0 { 2 * SLOT0[bank] } else { 0 };
            if used > from && a[at + from..at + used] != b[at + from..at + used] {
                return Err(format!("the {} bank is built differently in the fake ROM", BANKS[bank]));
            }
        }
    }
    o.nontrivial = true;
    o.when(f.itself.is_some(), "the ROM as its own output");
    o.when(f.old.map_or(false, |n| n as usize > p.rom.data.len()), "replaces a longer file");
    o.when(f.old.map_or(false, |n| (n as usize) < p.rom.data.len()), "replaces a shorter file");
    o.when(c.addrs() != DEFAULT_ADDRS, "other bank addresses");
    o.when(p.rom.over.iter().any(|x| x.1 == 0), "a bank without second chunk");
    Ok(())
}

fn c13_strategy(_: Tier) -> BoxedStrategy<FakeCase> {
    (rom_case(true), prop::option::of(0u32..200_000), prop::option::weighted(0.3, any::<u8>())).prop_map(|(c, old, itself)| FakeCase { c, old, itself }).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            rule: "Generated ROM layouts (random contents, chunk chains, pointer addresses, chunk sizes that put the switch at any piece) with 34 slots filled from 1-5 generated JSON and MIDI songs; non-trivial: at least one bank continues in its second chunk.",
            assumptions: &["the chunk following the one for audio RAM D000 is the bank's second chunk"],
            arms: vec![
                Box::new(Arm { name: "frame", cases: (900, 12000), strategy: wild, check: c06_check, fixed: none }),
            ],
        },
        Property {
            id: "C07",
            rule: "As C06; every slot is played from a simulated audio RAM and compared with the reference interpretation of its song; non-trivial: at least one bank continues in its second chunk.",
            assumptions: &["console upload, song table and song format per romimg.rs"],
            arms: vec![
                Box::new(Arm { name: "slots", cases: (900, 12000), strategy: tame, check: c07_check, fixed: none }),
            ],
        },
        Property {
            id: "C08",
            rule: "Generated ROMs and songs as in C06 with one fault (18 kinds) at a generated slot, bank or position; non-trivial: the build failed.",
            assumptions: &["write errors of the operating system are not injected"],
            arms: vec![Box::new(Arm { name: "faults", cases: (1500, 12000), strategy: c08_strategy, check: c08_check, fixed: none })],
        },
        Property {
            id: "C09",
            rule: "Songs converted repeatedly (hash seeds differ per run) with and without verbose output, series of builds of changing manifests with failing ones in between, and builds of several ROMs at the same time; non-trivial: the song has subroutines; the series has at least two successful builds; at least two builds at once.",
            assumptions: &[],
            arms: vec![
                Box::new(Arm { name: "convert", cases: (4000, 50000), strategy: c09_song, check: c09_convert, fixed: sample_cases }),
                Box::new(Arm { name: "history", cases: (400, 4000), strategy: c09_hist_s, check: c09_history, fixed: none }),
                Box::new(Arm { name: "together", cases: (160, 1600), strategy: c09_together_s, check: c09_together, fixed: none }),
            ],
        },
        Property {
            id: "C11",
            rule: "Generated manifests (entry orders, path styles, working folders, present and missing options) read back, and manifests of 34 one-note songs with their own tempos built into generated ROMs; non-trivial: some relative path and some default tempo / always.",
            assumptions: &[],
            arms: vec![
                Box::new(Arm { name: "parse", cases: (1500, 20000), strategy: c11_strategy, check: c11_check, fixed: none }),
                Box::new(Arm { name: "rom", cases: (300, 4000), strategy: c11_rom_s, check: c11_rom, fixed: none }),
            ],
        },
        Property {
            id: "C13",
            rule: "Generated ROMs as in C06 and output files that are missing, shorter or longer; every byte of the fake ROM compared, then the same build made into both; non-trivial: always.",
            assumptions: &[],
            arms: vec![Box::new(Arm { name: "fake", cases: (700, 8000), strategy: c13_strategy, check: c13_check, fixed: none })],
        },
        Property {
            id: "C15",
            rule: "Generated songs and chunk sizes that fit exactly or nearly so, and ones where one bank's second chunk is 1-40 bytes too small; non-trivial: a bank filled exactly / always.",
            assumptions: &["songs are placed in order, a song header with its part table and each track in one piece, in the first chunk and then the second"],
            arms: vec![
                Box::new(Arm { name: "fits", cases: (1500, 12000), strategy: exact, check: c15_fits, fixed: none }),
                Box::new(Arm { name: "too-small", cases: (900, 8000), strategy: tight, check: c15_small, fixed: none }),
                Box::new(Arm { name: "no-table", cases: (300, 3000), strategy: head_s, check: c15_head, fixed: none }),
            ],
        },
    ]
}
