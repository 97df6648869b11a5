//! C19: the program itself.
use crate::gen::*;
use crate::jsong::*;
use crate::props::more::play_value;
use crate::props::rom::*;
use crate::romimg::*;
use crate::runner::*;
use crate::smf::*;
use crate::spc::*;
use crate::sut::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

/// The command-line program built by setup.sh next to this harness.
pub fn program() -> PathBuf {
    std::env::var("VERIF_BIN").map(PathBuf::from).unwrap_or_else(|_| {
        // .build/harness/release/vharness -> .build/cli/debug/midi2spc
        let exe = std::env::current_exe().expect("exe");
        exe.ancestors().nth(3).expect("build directory").join("cli/debug/midi2spc")
    })
}

pub struct Ran {
    pub ok: bool,
    pub out: Vec<u8>,
    pub err: String,
    signal: Option<i32>,
}

pub fn run(dir: &Path, args: &[String]) -> Ran {
    run_limited(dir, args, None)
}

/// `room`: files cannot grow or be written beyond this many bytes, as on a full disk.
fn run_limited(dir: &Path, args: &[String], room: Option<u64>) -> Ran {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let mut cmd = std::process::Command::new(program());
    cmd.args(args).current_dir(dir).stdin(std::process::Stdio::null()).env_remove("RUST_BACKTRACE");
    unsafe {
        cmd.pre_exec(move || {
            libc::setrlimit(libc::RLIMIT_CPU, &libc::rlimit { rlim_cur: 90, rlim_max: 90 });
            if let Some(n) = room {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: n, rlim_max: n });
            }
            Ok(())
        });
    }
    let o = cmd.output().expect("program runs");
    Ran { ok: o.status.success(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned(), signal: o.status.signal() }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cmd {
    Build,
    AllOverworld,
    FileSelect,
}

/// How the command line is written.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Style {
    verbose: bool,
    long_options: bool,
    absolute: bool,
    upper: bool,
    /// digits the addresses are padded to
    digits: u8,
    /// default addresses spelled out
    spell: bool,
    /// addresses before the files
    first: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CliCase {
    c: RomCase,
    cmd: Cmd,
    style: Style,
}

fn style_s() -> BoxedStrategy<Style> {
    (prop::bool::weighted(0.2), any::<bool>(), any::<bool>(), any::<bool>(), 0u8..9, any::<bool>(), any::<bool>())
        .prop_map(|(verbose, long_options, absolute, upper, digits, spell, first)| Style { verbose, long_options, absolute, upper, digits, spell, first })
        .boxed()
}

/// Makes the case's manifest say what the command does.
pub fn single(c: &mut RomCase, cmd: &Cmd) {
    match cmd {
        Cmd::Build => {}
        Cmd::AllOverworld => {
            c.songs.truncate(1);
            c.slots = vec![(0, true); 34];
        }
        Cmd::FileSelect => {
            c.songs.truncate(1);
            c.songs.push(SongSrc::J(JSong { voices: vec![vec![]], subs: vec![], subs_first: false, rot: 0, pick: vec![], zeros: false }));
            c.slots = (0..34).map(|k| if k == FILE_SELECT { (0, true) } else { (1, false) }).collect();
        }
    }
}

fn args(c: &CliCase, p: &Prepared, addrs: Option<Vec<String>>) -> Vec<String> {
    let s = &c.style;
    let mut a: Vec<String> = vec![];
    if !c.c.optimize {
        a.push(if s.long_options { "--skip_optimization" } else { "-s" }.into());
    }
    if s.verbose {
        a.push(if s.long_options { "--verbose" } else { "-v" }.into());
    }
    a.push(match c.cmd { Cmd::Build => "build_rom", Cmd::AllOverworld => "all_overworld", Cmd::FileSelect => "file_select" }.into());
    let path = |f: &Path| if s.absolute { f.display().to_string() } else { f.file_name().unwrap().to_string_lossy().into_owned() };
    let input = match c.cmd {
        Cmd::Build => p.manifest.clone(),
        _ => p.scratch.0.join(format!("s0.{}", c.c.songs[0].ext())),
    };
    let files = [path(&input), path(&p.rom_path)];
    if !s.first {
        a.extend(files.iter().cloned());
    }
    if let Some(list) = addrs {
        a.push("--bank_addrs".into());
        a.push(list.join(","));
    }
    if s.first {
        a.extend(files.iter().cloned());
    }
    a
}

fn spelled(s: &Style, addrs: [u32; 3]) -> Option<Vec<String>> {
    if addrs == DEFAULT_ADDRS && !s.spell {
        return None;
    }
    let w = s.digits as usize;
    Some(addrs.iter().map(|a| if s.upper { format!("{:0w$X}", a) } else { format!("{:0w$x}", a) }).collect())
}

fn c19_check(c: &CliCase, o: &mut Obs) -> Verdict {
    let mut c = c.clone();
    single(&mut c.c, &c.cmd);
    let Some(p) = c.c.prepare(None)? else { return Ok(()) };
    let copy = p.scratch.file("copy.smc", &p.rom.data);
    let a = args(&c, &p, spelled(&c.style, c.c.addrs()));
    let r = run(&p.scratch.0, &a);
    let line = a.join(" ");
    if !r.ok {
        return Err(format!("`midi2spc {}` failed (signal {:?}) though all songs fit: {}", line, r.signal, r.err));
    }
    let after = std::fs::read(&p.rom_path).map_err(|e| e.to_string())?;
    frame_check(&p.rom, &after).map_err(|e| format!("`{}`: {}", line, e))?;
    let mut plays: Vec<Vec<Vec<Ev>>> = vec![];
    for (i, s) in c.c.songs.iter().enumerate() {
        plays.push(match s {
            SongSrc::J(j) => j.play(),
            SongSrc::M(_) => p.images[i].play_all()?.into_iter().map(|p| p.evs).collect(),
        });
    }
    slots_check(&after, c.c.addrs(), |k| Ok((plays[c.c.slots[k].0 as usize].clone(), c.c.slots[k].1))).map_err(|e| format!("`{}`: {}", line, e))?;
    // the library does the same
    let lib = match c.cmd {
        Cmd::Build => build_rom(&p.manifest, &copy, c.c.addrs(), c.c.optimize, false),
        _ => {
            let song = p.scratch.0.join(format!("s0.{}", c.c.songs[0].ext()));
            let (song, rom) = (song.to_str().unwrap().to_string(), copy.to_str().unwrap().to_string());
            let f = if c.cmd == Cmd::AllOverworld { midi2spc::write_all_overworld } else { midi2spc::write_file_select };
            match sut(|| f(&song, &rom, c.c.addrs(), c.c.optimize, false).map_err(|e| format!("{}", e))) {
                Ok(Ok(())) => Outcome::Ok(()),
                Ok(Err(e)) => Outcome::Err(e),
                Err(e) => Outcome::Panic(e),
            }
        }
    };
    if lib.failed() {
        return Err(format!("`{}` succeeds and the same call of the library fails", line));
    }
    if std::fs::read(&copy).unwrap() != after {
        return Err(format!("`{}` builds another ROM than the library", line));
    }
    o.label(&format!("{:?}", c.cmd));
    o.when(c.c.addrs() != DEFAULT_ADDRS, "other bank addresses");
    o.when(c.c.songs[0].ext() == "mid", "MIDI song");
    o.when(c.style.verbose, "verbose");
    o.nontrivial = p.images[0].tracks.iter().any(|t| t.len() > 12);
    Ok(())
}

fn c19_strategy(_: Tier) -> BoxedStrategy<CliCase> {
    (rom_case(true), prop::sample::select(vec![Cmd::Build, Cmd::AllOverworld, Cmd::FileSelect]), style_s())
        .prop_map(|(c, cmd, style)| CliCase { c, cmd, style })
        .boxed()
}

// ---------------------------------------------------------------- failing commands

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wrong {
    NoSong,
    NoRom,
    NoManifest,
    Garbage(Vec<u8>),
    NineVoices,
    TooSmall(u8),
    BadAddr(u8, String),
    FewAddrs(u8),
    ExportNoInput,
    ExportGarbage(Vec<u8>),
    ExportNineVoices,
    ExportNowhere,
    FakeNoInput,
    FakeNowhere,
    FakeShort(u16),
    NoCommand,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WrongCase {
    c: CliCase,
    wrong: Wrong,
}

fn c19_wrong(w: &WrongCase, o: &mut Obs) -> Verdict {
    let mut c = w.c.clone();
    if matches!(w.wrong, Wrong::NoManifest) {
        c.cmd = Cmd::Build;
    }
    single(&mut c.c, &c.cmd);
    let shrink = if let Wrong::TooSmall(b) = w.wrong { Some(b as usize) } else { None };
    let Some(p) = c.c.prepare(shrink)? else { return Ok(()) };
    let mut addrs = spelled(&c.style, c.c.addrs());
    let song = p.scratch.0.join(format!("s0.{}", c.c.songs[0].ext()));
    let dir = p.scratch.0.clone();
    let text = |s: &str| s.to_string();
    let mut line = None;
    let mut replace = |data: &[u8]| {
        // the song becomes a broken MIDI file, in the place of a good one
        std::fs::write(dir.join("bad.mid"), data).unwrap();
        let mut m: Value = serde_json::from_slice(&std::fs::read(&p.manifest).unwrap()).unwrap();
        m["ending"]["Ending"] = json!({ "input": "bad.mid" });
        std::fs::write(&p.manifest, serde_json::to_vec(&m).unwrap()).unwrap();
    };
    let mut bad_input = false;
    match &w.wrong {
        Wrong::NoSong => std::fs::remove_file(&song).unwrap(),
        Wrong::NoRom => std::fs::remove_file(&p.rom_path).unwrap(),
        Wrong::NoManifest => std::fs::remove_file(&p.manifest).unwrap(),
        Wrong::Garbage(d) => {
            replace(d);
            bad_input = true
        }
        Wrong::NineVoices => {
            replace(&chord_midi(9));
            bad_input = true
        }
        Wrong::TooSmall(_) => {}
        Wrong::BadAddr(i, s) => {
            let mut l = addrs.take().unwrap_or_else(|| DEFAULT_ADDRS.iter().map(|a| format!("{:x}", a)).collect());
            l[*i as usize % 3] = s.clone();
            addrs = Some(l);
        }
        Wrong::FewAddrs(n) => addrs = Some(vec![text("914"); if *n % 3 == 2 { 4 } else { (*n % 3) as usize + 1 }]),
        Wrong::ExportNoInput => line = Some(vec![text("midi2json"), text("nothing.mid"), text("out.json")]),
        Wrong::ExportGarbage(d) => {
            std::fs::write(dir.join("bad.mid"), d).unwrap();
            line = Some(vec![text("midi2json"), text("bad.mid"), text("out.json")])
        }
        Wrong::ExportNineVoices => {
            std::fs::write(dir.join("bad.mid"), chord_midi(9)).unwrap();
            line = Some(vec![text("midi2json"), text("bad.mid"), text("out.json")])
        }
        Wrong::ExportNowhere => {
            std::fs::write(dir.join("good.mid"), chord_midi(3)).unwrap();
            line = Some(vec![text("midi2json"), text("good.mid"), text("no/such/dir/out.json")])
        }
        Wrong::FakeNoInput => line = Some(vec![text("gen_fake_rom"), text("nothing.smc"), text("out.smc")]),
        Wrong::FakeNowhere => line = Some(vec![text("gen_fake_rom"), text("rom.smc"), text("no/such/dir/out.smc")]),
        Wrong::FakeShort(n) => {
            std::fs::write(dir.join("short.smc"), &p.rom.data[..*n as usize % 0x900]).unwrap();
            line = Some(vec![text("gen_fake_rom"), text("short.smc"), text("out.smc")])
        }
        Wrong::NoCommand => line = Some(vec![]),
    }
    let a = line.unwrap_or_else(|| {
        let mut a = args(&c, &p, addrs);
        if bad_input && c.cmd != Cmd::Build {
            for x in a.iter_mut() {
                if x.ends_with("s0.mid") || x.ends_with("s0.json") {
                    *x = "bad.mid".into();
                }
            }
        }
        a
    });
    let r = run(&dir, &a);
    let what = format!("`midi2spc {}` ({:?})", a.join(" "), w.wrong);
    if r.ok {
        return Err(format!("{} ends without an error", what));
    }
    if let Some(s) = r.signal {
        return Err(format!("{} ends by signal {}", what, s));
    }
    if !matches!(w.wrong, Wrong::NoRom) && std::fs::read(&p.rom_path).ok() != Some(p.rom.data.clone()) {
        return Err(format!("{} fails and changes the ROM", what));
    }
    if matches!(w.wrong, Wrong::NoRom) && p.rom_path.exists() {
        return Err(format!("{} creates a ROM", what));
    }
    let kind = format!("{:?}", w.wrong);
    o.label(kind.split(|c: char| !c.is_alphanumeric()).next().unwrap());
    o.nontrivial = true;
    Ok(())
}

fn c19_wrong_s(_: Tier) -> BoxedStrategy<WrongCase> {
    let junk = || prop::collection::vec(any::<u8>(), 0..40);
    let wrong = prop_oneof![
        Just(Wrong::NoSong),
        Just(Wrong::NoRom),
        Just(Wrong::NoManifest),
        junk().prop_map(Wrong::Garbage),
        Just(Wrong::NineVoices),
        (0u8..3).prop_map(Wrong::TooSmall),
        (0u8..3, prop::sample::select(vec!["xyz", "9 14", "91g", "0x914", "123456789", "-914", "$914"])).prop_map(|(i, s)| Wrong::BadAddr(i, s.to_string())),
        (0u8..3).prop_map(Wrong::FewAddrs),
        Just(Wrong::ExportNoInput),
        junk().prop_map(Wrong::ExportGarbage),
        Just(Wrong::ExportNineVoices),
        Just(Wrong::ExportNowhere),
        Just(Wrong::FakeNoInput),
        Just(Wrong::FakeNowhere),
        any::<u16>().prop_map(Wrong::FakeShort),
        Just(Wrong::NoCommand),
    ];
    (c19_strategy(Tier::Quick), wrong).prop_map(|(c, wrong)| WrongCase { c, wrong }).boxed()
}

// ---------------------------------------------------------------- export, fake ROM, dump

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExportCase {
    g: SongGen,
    skip: bool,
    verbose: bool,
    /// length of an output file already there
    old: Option<u16>,
}

fn c19_export(c: &ExportCase, o: &mut Obs) -> Verdict {
    let sc = Scratch::new();
    let d = encode(&c.g.compile());
    let f = sc.file("song.mid", &d);
    let lib = convert_path(&f, 0.2, !c.skip);
    if let Some(n) = c.old {
        sc.file("out.json", &vec![b'['; n as usize]);
    }
    let mut a: Vec<String> = vec![];
    if c.verbose {
        a.push("-v".into());
    }
    if c.skip {
        a.push("-s".into());
    }
    a.extend(["midi2json", "song.mid", "out.json"].map(String::from));
    let r = run(&sc.0, &a);
    let Outcome::Ok(img) = lib else {
        o.label("refused");
        return if r.ok { Err("midi2json exports a file the library refuses".into()) } else { Ok(()) };
    };
    if !r.ok {
        return Err(format!("midi2json fails on a file the library converts: {}", r.err));
    }
    let text = std::fs::read(sc.0.join("out.json")).map_err(|e| format!("no export: {}", e))?;
    let v: Value = serde_json::from_slice(&text).map_err(|e| format!("the export is not JSON: {}", e))?;
    let want: Vec<Vec<Ev>> = img.play_all()?.into_iter().map(|p| p.evs).collect();
    if play_value(&v)? != want {
        return Err("the exported song plays something else than the song a build uses".into());
    }
    match image_of_file(&sc.0.join("out.json"), true, 0.2, false) {
        Outcome::Ok(j) => {
            if j.tracks != img.tracks || j.part != img.part || j.refs != img.refs {
                return Err("the exported song is built differently from the MIDI file".into());
            }
        }
        Outcome::Err(e) | Outcome::Panic(e) => return Err(format!("the export cannot be built: {}", e)),
    }
    let r = run(&sc.0, &["dump_midi".to_string(), "song.mid".to_string()]);
    if !r.ok || r.out.is_empty() {
        return Err(format!("dump_midi fails: {}", r.err));
    }
    if std::fs::read(&f).unwrap() != d {
        return Err("the MIDI file changed".into());
    }
    o.nontrivial = want.iter().any(|v| v.len() > 8);
    o.when(img.refs.iter().any(|r| !r.is_empty()), "with calls");
    o.when(c.skip, "not optimised");
    Ok(())
}

fn c19_export_s(_: Tier) -> BoxedStrategy<ExportCase> {
    (
        song(Cfg { max_chans: 4, max_lines: 2, max_segs: 3, max_reps: 6, long: false, ..Default::default() }),
        any::<bool>(),
        prop::bool::weighted(0.2),
        prop::option::of(prop_oneof![0u16..50, any::<u16>()]),
    )
        .prop_map(|(g, skip, verbose, old)| ExportCase { g, skip, verbose, old })
        .boxed()
}

fn c19_fake(c: &RomCase, o: &mut Obs) -> Verdict {
    let Some(p) = c.prepare(None)? else { return Ok(()) };
    let want = p.scratch.0.join("lib.smc");
    match sut(|| midi2spc::rom::gen_fake_rom(&p.rom_path, &want, DEFAULT_ADDRS).map_err(|e| format!("{}", e))) {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => return Err(format!("the library makes no fake ROM: {}", e)),
    }
    let r = run(&p.scratch.0, &["gen_fake_rom", "rom.smc", "out.smc"].map(String::from));
    if !r.ok {
        return Err(format!("gen_fake_rom fails: {}", r.err));
    }
    if std::fs::read(p.scratch.0.join("out.smc")).ok() != std::fs::read(&want).ok() {
        return Err("gen_fake_rom writes another fake ROM than the library".into());
    }
    if std::fs::read(&p.rom_path).unwrap() != p.rom.data {
        return Err("gen_fake_rom changed the real ROM".into());
    }
    o.nontrivial = true;
    Ok(())
}

fn c19_fake_s(_: Tier) -> BoxedStrategy<RomCase> {
    rom_case(false)
}

/// A command for whose output there is not enough room.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RoomCase {
    c: CliCase,
    /// 0 the command of the case, 1 midi2json, 2 gen_fake_rom
    kind: u8,
    /// room as a fraction of the complete output, of 1000
    room: u16,
}

fn c19_room(c: &RoomCase, o: &mut Obs) -> Verdict {
    let mut k = c.c.clone();
    single(&mut k.c, &k.cmd);
    let Some(p) = k.c.prepare(None)? else { return Ok(()) };
    let dir = &p.scratch.0;
    std::fs::write(dir.join("song.mid"), chord_midi(5)).unwrap();
    let (a, out) = match c.kind {
        0 => (args(&k, &p, spelled(&k.style, k.c.addrs())), "rom.smc"),
        1 => (["midi2json", "song.mid", "out.json"].map(String::from).to_vec(), "out.json"),
        _ => (["gen_fake_rom", "rom.smc", "out.smc"].map(String::from).to_vec(), "out.smc"),
    };
    if c.kind == 2 && k.c.addrs() != DEFAULT_ADDRS {
        return Ok(());
    }
    let r = run(dir, &a);
    if !r.ok {
        return Err(format!("`midi2spc {}` fails: {}", a.join(" "), r.err));
    }
    let want = std::fs::read(dir.join(out)).unwrap();
    if out == "rom.smc" {
        std::fs::write(&p.rom_path, &p.rom.data).unwrap();
    } else {
        std::fs::remove_file(dir.join(out)).unwrap();
    }
    let room = want.len() as u64 * c.room as u64 / 1000;
    let r = run_limited(dir, &a, Some(room));
    if r.ok && std::fs::read(dir.join(out)).ok() != Some(want) {
        return Err(format!("`midi2spc {}` ends without an error though only {} bytes of its output could be written", a.join(" "), room));
    }
    o.nontrivial = !r.ok && room > 0;
    o.label(["build", "export", "fake ROM"][c.kind as usize % 3]);
    Ok(())
}

fn c19_room_s(_: Tier) -> BoxedStrategy<RoomCase> {
    let case = (rom_case(false), prop::sample::select(vec![Cmd::Build, Cmd::AllOverworld, Cmd::FileSelect]), style_s())
        .prop_map(|(c, cmd, style)| CliCase { c, cmd, style });
    (case, 0u8..3, 0u16..1000).prop_map(|(c, kind, room)| RoomCase { c, kind, room }).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C19",
        rule: "The program run on generated songs, ROM layouts, bank addresses and options, and on broken inputs; non-trivial: the song is more than an empty one.",
        assumptions: &["dump_midi, a debugging aid, reports reading errors in its output and not in its exit status"],
        arms: vec![
            Box::new(Arm { name: "commands", cases: (1800, 16000), strategy: c19_strategy, check: c19_check, fixed: none }),
            Box::new(Arm { name: "wrong", cases: (1600, 16000), strategy: c19_wrong_s, check: c19_wrong, fixed: none }),
            Box::new(Arm { name: "export", cases: (1600, 20000), strategy: c19_export_s, check: c19_export, fixed: none }),
            Box::new(Arm { name: "fake", cases: (320, 1000), strategy: c19_fake_s, check: c19_fake, fixed: none }),
            Box::new(Arm { name: "room", cases: (200, 2000), strategy: c19_room_s, check: c19_room, fixed: none }),
        ],
    }]
}
