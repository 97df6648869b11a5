//! C21: the ROM file until the last song is placed.
use crate::props::cli::*;
use crate::props::rom::*;
use crate::runner::*;
use crate::sut::*;
use failure::Error;
use midi2spc::{manifest, midi, nspc, rom};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CallsCase {
    c: RomCase,
    cmd: Cmd,
    /// tempo factors of the slots in hundredths; 0 is left out
    factors: Vec<u8>,
    /// conversion (of all, modulo) that goes wrong; whether it panics
    fault: Option<(u8, bool)>,
}

fn real(path: &Path, factor: f32, optimize: bool) -> Result<nspc::Song, Error> {
    if path.extension().map_or(false, |e| e == "mid") {
        let mut m = midi::MidiHandler::new();
        m.read(path, false)?;
        nspc::Song::from_midi(&m, factor, optimize, false)
    } else {
        Ok(nspc::Song::from_json(path))
    }
}

fn calls_check(c: &CallsCase, o: &mut Obs) -> Verdict {
    let mut k = c.c.clone();
    single(&mut k, &c.cmd);
    let Some(p) = k.prepare(None)? else { return Ok(()) };
    let song = |k: u8, c: &RomCase| p.scratch.0.join(format!("s{}.{}", k, c.songs[k as usize].ext()));
    let mut want: Vec<(PathBuf, f32)> = vec![];
    match c.cmd {
        Cmd::Build => {
            // (the factor changes a tempo byte and no size)
            let mut m: Value = serde_json::from_slice(&std::fs::read(&p.manifest).unwrap()).unwrap();
            let mut n = 0;
            for b in 0..3 {
                for name in NAMES[b] {
                    let f = c.factors[n];
                    if f > 0 {
                        m[BANKS[b]][*name]["tempoAdjust"] = json!(f as f64 / 100.0);
                    }
                    want.push((song(k.slots[n].0, &k), if f > 0 { (f as f64 / 100.0) as f32 } else { 0.2 }));
                    n += 1;
                }
            }
            std::fs::write(&p.manifest, serde_json::to_vec(&m).unwrap()).unwrap();
        }
        Cmd::AllOverworld | Cmd::FileSelect => want.push((song(0, &k), 0.2)),
    }
    let total = match c.cmd {
        Cmd::Build | Cmd::AllOverworld => 34,
        Cmd::FileSelect => 1,
    };
    let fault = c.fault.map(|(n, panics)| (n as usize % total, panics));
    let seen: RefCell<Vec<(PathBuf, f32)>> = RefCell::new(vec![]);
    let early: RefCell<Option<usize>> = RefCell::new(None);
    let (optimize, rom_path, before) = (k.optimize, &p.rom_path, &p.rom.data);
    let converter = |path: &Path, factor: f32| -> Result<nspc::Song, Error> {
        let n = seen.borrow().len();
        seen.borrow_mut().push((path.to_path_buf(), factor));
        if early.borrow().is_none() && std::fs::read(rom_path).ok().as_ref() != Some(before) {
            *early.borrow_mut() = Some(n);
        }
        match fault {
            Some((at, true)) if at == n => panic!("no such song"),
            Some((at, false)) if at == n => Err(failure::err_msg("no such song")),
            _ => real(path, factor, optimize),
        }
    };
    let conv: &dyn Fn(&Path, f32) -> Result<nspc::Song, Error> = &converter;
    let r = sut(|| -> Result<(), String> {
        match c.cmd {
            Cmd::Build => {
                let m = manifest::Manifest::new(&p.manifest).map_err(|e| format!("{}", e))?;
                rom::write(&m, &p.rom_path, k.addrs(), conv, false)
            }
            Cmd::AllOverworld => rom::write_all_overworld(&want[0].0, &p.rom_path, k.addrs(), conv, false),
            Cmd::FileSelect => rom::write_file_select(&want[0].0, &p.rom_path, k.addrs(), conv, false),
        }
        .map_err(|e| format!("{}", e))
    });
    if let Some(n) = *early.borrow() {
        return Err(format!("the ROM file has changed when song {} of {} is asked for", n + 1, total));
    }
    let seen = seen.borrow();
    for s in seen.iter() {
        if !want.contains(s) {
            return Err(format!("the converter is asked for {:?}, which no slot names", s));
        }
    }
    let after = std::fs::read(&p.rom_path).map_err(|e| e.to_string())?;
    let reached = fault.map_or(false, |f| seen.len() > f.0);
    match (r, reached) {
        (Ok(Ok(())), false) => {
            for w in &want {
                if !seen.contains(w) {
                    return Err(format!("the converter is never asked for {:?}", w));
                }
            }
            if fault.is_none() && after == p.rom.data {
                return Err("a build of 34 songs leaves the ROM as it was".into());
            }
        }
        (Ok(Ok(())), true) => return Err("a build succeeds though a song does not convert".into()),
        (Ok(Err(e)), false) | (Err(e), false) => return Err(format!("a build whose songs convert and fit fails: {}", e)),
        (_, true) => {
            if after != p.rom.data {
                return Err(format!("song {} of {} does not convert and the ROM is changed", fault.unwrap().0 + 1, total));
            }
        }
    }
    o.label(&format!("{:?}", c.cmd));
    o.when(fault.map_or(false, |f| f.1), "converter panics");
    o.when(fault.map_or(false, |f| !f.1), "converter fails");
    o.nontrivial = fault.map_or(c.cmd == Cmd::Build, |f| f.0 > 0);
    Ok(())
}

fn calls_s(_: Tier) -> BoxedStrategy<CallsCase> {
    (
        rom_case(true),
        prop_oneof![4 => Just(Cmd::Build), 1 => Just(Cmd::AllOverworld), 1 => Just(Cmd::FileSelect)],
        prop::collection::vec(prop_oneof![1 => Just(0u8), 1 => 1u8..100], 34),
        prop_oneof![1 => Just(None), 3 => (any::<u8>(), any::<bool>()).prop_map(Some)],
    )
        .prop_map(|(c, cmd, factors, fault)| CallsCase { c, cmd, factors, fault })
        .boxed()
}

/// How the program is stopped while it waits for a song.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Stop {
    Kill,
    Terminate,
    Interrupt,
    /// the song ends after so many bytes (of a song of the case, modulo)
    Ends(u16),
    /// killed after so many bytes
    KillAfter(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StopCase {
    c: RomCase,
    cmd: Cmd,
    slot: u8,
    stop: Stop,
}

fn stop_check(c: &StopCase, o: &mut Obs) -> Verdict {
    use std::io::Write;
    use std::os::unix::fs::OpenOptionsExt;
    let mut k = c.c.clone();
    single(&mut k, &c.cmd);
    let Some(p) = k.prepare(None)? else { return Ok(()) };
    let pipe = p.scratch.0.join("pipe.json");
    let name = std::ffi::CString::new(pipe.to_str().unwrap()).unwrap();
    assert_eq!(unsafe { libc::mkfifo(name.as_ptr(), 0o600) }, 0, "mkfifo");
    let slot = c.slot as usize % 34;
    let mut cmd = std::process::Command::new(program());
    cmd.current_dir(&p.scratch.0).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    match c.cmd {
        Cmd::Build => {
            let mut m: Value = serde_json::from_slice(&std::fs::read(&p.manifest).unwrap()).unwrap();
            let b = if slot < 15 { 0 } else if slot < 31 { 1 } else { 2 };
            m[BANKS[b]][NAMES[b][slot - [0, 15, 31][b]]]["input"] = json!("pipe.json");
            std::fs::write(&p.manifest, serde_json::to_vec(&m).unwrap()).unwrap();
            cmd.args(["build_rom", "manifest.json", "rom.smc"]);
        }
        Cmd::AllOverworld => {
            cmd.args(["all_overworld", "pipe.json", "rom.smc"]);
        }
        Cmd::FileSelect => {
            cmd.args(["file_select", "pipe.json", "rom.smc"]);
        }
    }
    cmd.arg("--bank_addrs").arg(k.addrs().iter().map(|a| format!("{:x}", a)).collect::<Vec<_>>().join(","));
    let mut child = cmd.spawn().expect("program runs");
    // until the program opens the song
    let t0 = std::time::Instant::now();
    let mut end = loop {
        match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&pipe) {
            Ok(f) => break Some(f),
            Err(_) => {
                if child.try_wait().expect("wait").is_some() || t0.elapsed().as_secs() > 20 {
                    break None;
                }
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
        }
    };
    let waiting = end.is_some();
    let early = std::fs::read(&p.rom_path).ok() != Some(p.rom.data.clone());
    let pid = child.id() as i32;
    let song = k.songs.iter().find(|s| s.ext() == "json").map(|s| s.bytes()).unwrap_or_else(|| b"{\"parts\":[{\"tracks\":[0]}],\"tracks\":[{\"commands\":[]}]}".to_vec());
    let part = |n: u16| &song[..n as usize % song.len()];
    if let Some(f) = end.as_mut() {
        match c.stop {
            Stop::Ends(n) | Stop::KillAfter(n) => {
                let _ = f.write(part(n));
            }
            _ => {}
        }
    }
    if waiting {
        let signal = match c.stop {
            Stop::Kill | Stop::KillAfter(_) => Some(libc::SIGKILL),
            Stop::Terminate => Some(libc::SIGTERM),
            Stop::Interrupt => Some(libc::SIGINT),
            Stop::Ends(_) => None,
        };
        if let Some(s) = signal {
            unsafe { libc::kill(pid, s) };
        }
    }
    drop(end);
    let t0 = std::time::Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break Some(s);
        }
        if t0.elapsed().as_secs() > 20 {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    };
    if !waiting {
        // it looks at the song in some other way
        o.label("song not waited for");
        return Ok(());
    }
    let what = format!("{:?}, stopped ({:?}) while it waits for the song of slot {}", c.cmd, c.stop, slot);
    if early {
        return Err(format!("{}: the ROM file was changed before", what));
    }
    if std::fs::read(&p.rom_path).ok() != Some(p.rom.data.clone()) {
        return Err(format!("{}: the ROM file is changed", what));
    }
    if status.map_or(false, |s| s.success()) {
        return Err(format!("{}: it reports success", what));
    }
    o.label(&format!("{:?}", c.cmd));
    o.label(format!("{:?}", c.stop).split('(').next().unwrap());
    o.nontrivial = c.cmd == Cmd::Build && slot > 0;
    Ok(())
}

fn stop_s(_: Tier) -> BoxedStrategy<StopCase> {
    let stop = prop_oneof![
        3 => Just(Stop::Kill),
        1 => Just(Stop::Terminate),
        1 => Just(Stop::Interrupt),
        3 => any::<u16>().prop_map(Stop::Ends),
        1 => any::<u16>().prop_map(Stop::KillAfter),
    ];
    (rom_case(false), prop_oneof![6 => Just(Cmd::Build), 1 => Just(Cmd::AllOverworld), 1 => Just(Cmd::FileSelect)], 0u8..34, stop)
        .prop_map(|(c, cmd, slot, stop)| StopCase { c, cmd, slot, stop })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C21",
        rule: "Builds of generated songs and ROM layouts, stopped at a generated song; non-trivial: at least one song was placed before (or nothing stops the build and all 34 conversions were watched).",
        assumptions: &["the program is stopped while it waits for a song (a named pipe), not in the middle of writing the finished ROM"],
        arms: vec![
            Box::new(Arm { name: "calls", cases: (1600, 20000), strategy: calls_s, check: calls_check, fixed: none }),
            Box::new(Arm { name: "stop", cases: (1200, 12000), strategy: stop_s, check: stop_check, fixed: none }),
        ],
    }]
}
