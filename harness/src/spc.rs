//! An independent N-SPC sequence player: it walks track bytes the way the sound driver does and
//! reports what would be heard. Shares no code with midi2spc.

use std::collections::HashMap;

/// Operand counts of driver effects E0..FA.
pub const EFFECT_LEN: [usize; 27] = [
    1, 1, 2, 3, 0, // E0 instrument, E1 pan, E2 pan fade, E3 vibrato, E4 vibrato off
    1, 2, 1, 2, 1, // E5 master vol, E6 master vol fade, E7 tempo, E8 tempo fade, E9 global transpose
    1, 3, 0, 1, 2, // EA transpose, EB tremolo, EC tremolo off, ED channel vol, EE channel vol fade
    3, 1, 3, 3, 0, // EF call, F0 vibrato fade, F1/F2 pitch envelope, F3 off
    1, 3, 0, 3, 3, // F4 tuning, F5 echo, F6 echo off, F7 echo params, F8 echo fade
    3, 1, // F9 pitch slide, FA percussion base
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// pitch byte 0x80..=0xC7
    Note { pitch: u8, dur: u8, velq: u8 },
    /// 0xCA..=0xDF
    Perc { idx: u8, dur: u8, velq: u8 },
    Tie { dur: u8 },
    Rest { dur: u8 },
    Cmd { op: u8, args: Vec<u8> },
}

impl Ev {
    pub fn dur(&self) -> u64 {
        match *self {
            Ev::Note { dur, .. } | Ev::Perc { dur, .. } | Ev::Tie { dur } | Ev::Rest { dur } => dur as u64,
            Ev::Cmd { .. } => 0,
        }
    }
}

pub trait Mem {
    fn byte(&self, addr: usize) -> Result<u8, String>;
    /// Address a call instruction's two-byte operand at `addr` refers to.
    fn target(&self, addr: usize) -> Result<usize, String>;
    fn describe(&self, addr: usize) -> String;
}

/// Result of playing one track.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Played {
    pub evs: Vec<Ev>,
    /// number of executed call instructions with the number of repetitions each
    pub calls: Vec<u8>,
    /// total bytes consumed from distinct addresses (top level only)
    pub end: usize,
}

const STEP_LIMIT: usize = 4_000_000;

pub fn play<M: Mem>(mem: &M, start: usize) -> Result<Played, String> {
    let mut out = Played::default();
    let mut pos = start;
    let mut dur: Option<u8> = None;
    let mut velq: Option<u8> = None;
    // (return address, subroutine start, remaining repetitions)
    let mut frame: Option<(usize, usize, u8)> = None;
    let mut steps = 0usize;
    loop {
        steps += 1;
        if steps > STEP_LIMIT {
            return Err("step limit exceeded".into());
        }
        let at = pos;
        let mut b = mem.byte(pos)?;
        pos += 1;
        if b == 0 {
            match frame {
                None => {
                    out.end = pos;
                    return Ok(out);
                }
                Some((ret, sub, left)) => {
                    if left > 1 {
                        frame = Some((ret, sub, left - 1));
                        pos = sub;
                    } else {
                        frame = None;
                        pos = ret;
                    }
                    continue;
                }
            }
        }
        if b < 0x80 {
            dur = Some(b);
            b = mem.byte(pos)?;
            pos += 1;
            if b < 0x80 {
                velq = Some(b);
                b = mem.byte(pos)?;
                pos += 1;
                if b < 0x80 {
                    return Err(format!("{}: third parameter byte {:02x} where a command is expected", mem.describe(at), b));
                }
            }
        }
        if b < 0xe0 {
            let d = dur.ok_or_else(|| format!("{}: {:02x} before any duration", mem.describe(at), b))?;
            match b {
                0xc8 => out.evs.push(Ev::Tie { dur: d }),
                0xc9 => out.evs.push(Ev::Rest { dur: d }),
                _ => {
                    let v = velq.ok_or_else(|| format!("{}: note {:02x} before any velocity", mem.describe(at), b))?;
                    if b < 0xc8 {
                        out.evs.push(Ev::Note { pitch: b, dur: d, velq: v })
                    } else {
                        out.evs.push(Ev::Perc { idx: b, dur: d, velq: v })
                    }
                }
            }
            continue;
        }
        if b > 0xfa {
            return Err(format!("{}: undefined command {:02x}", mem.describe(at), b));
        }
        if b == 0xef {
            if frame.is_some() {
                return Err(format!("{}: call inside a subroutine (the driver has one return slot)", mem.describe(at)));
            }
            let target = mem.target(pos)?;
            let count = mem.byte(pos + 2)?;
            if count == 0 {
                return Err(format!("{}: call with repeat count 0", mem.describe(at)));
            }
            frame = Some((pos + 3, target, count));
            out.calls.push(count);
            pos = target;
            continue;
        }
        let n = EFFECT_LEN[(b - 0xe0) as usize];
        let mut args = Vec::with_capacity(n);
        for i in 0..n {
            args.push(mem.byte(pos + i)?);
        }
        pos += n;
        out.evs.push(Ev::Cmd { op: b, args });
    }
}

/// Track bytes as produced by `Song::write_track`, calls resolved by track index.
#[derive(Clone, Debug, Default)]
pub struct SongImage {
    pub tracks: Vec<Vec<u8>>,
    pub refs: Vec<HashMap<usize, usize>>,
    pub part: Vec<usize>,
}

impl Mem for SongImage {
    fn byte(&self, addr: usize) -> Result<u8, String> {
        let (t, o) = (addr >> 24, addr & 0xff_ffff);
        self.tracks[t].get(o).copied().ok_or_else(|| format!("track {} ran past its end (offset {:#x})", t, o))
    }
    fn target(&self, addr: usize) -> Result<usize, String> {
        let (t, o) = (addr >> 24, addr & 0xff_ffff);
        let tgt = *self.refs[t].get(&o).ok_or_else(|| format!("track {} offset {:#x}: call operand has no fix-up", t, o))?;
        if tgt >= self.tracks.len() || self.tracks[tgt].is_empty() {
            return Err(format!("call to missing or empty track {}", tgt));
        }
        Ok(tgt << 24)
    }
    fn describe(&self, addr: usize) -> String {
        format!("track {} offset {:#x}", addr >> 24, addr & 0xff_ffff)
    }
}

impl SongImage {
    pub fn play_all(&self) -> Result<Vec<Played>, String> {
        let mut v = vec![];
        for &t in &self.part {
            if t >= self.tracks.len() {
                return Err(format!("part refers to missing track {}", t));
            }
            if self.tracks[t].is_empty() {
                v.push(Played::default());
                continue;
            }
            let p = play(self, t << 24).map_err(|e| format!("voice track {}: {}", t, e))?;
            if p.end & 0xff_ffff != self.tracks[t].len() {
                return Err(format!(
                    "track {} ends at offset {:#x} but is {:#x} bytes long",
                    t,
                    p.end & 0xff_ffff,
                    self.tracks[t].len()
                ));
            }
            v.push(p);
        }
        Ok(v)
    }
}

/// Audio RAM image assembled from a ROM's chunks.
pub struct Aram {
    pub mem: Vec<u8>,
    pub known: Vec<bool>,
}

impl Aram {
    pub fn new() -> Aram {
        Aram { mem: vec![0; 0x10000], known: vec![false; 0x10000] }
    }
    pub fn load(&mut self, at: usize, data: &[u8]) {
        for (i, &b) in data.iter().enumerate() {
            if at + i < 0x10000 {
                self.mem[at + i] = b;
                self.known[at + i] = true;
            }
        }
    }
    pub fn word(&self, a: usize) -> Result<usize, String> {
        Ok(self.byte(a)? as usize | (self.byte(a + 1)? as usize) << 8)
    }
}

impl Mem for Aram {
    fn byte(&self, addr: usize) -> Result<u8, String> {
        if addr >= 0x10000 || !self.known[addr] {
            return Err(format!("read outside the song chunks at ARAM {:#06x}", addr));
        }
        Ok(self.mem[addr])
    }
    fn target(&self, addr: usize) -> Result<usize, String> {
        self.word(addr)
    }
    fn describe(&self, addr: usize) -> String {
        format!("ARAM {:#06x}", addr)
    }
}
