//! What a MIDI file should sound like (expected) and what a converted song does sound like (observed).
use crate::smf::{MEv, Smf};
use crate::spc::{Ev, Played};
use std::collections::HashMap;

/// General MIDI program -> driver instrument (reference table).
pub const GM: [u8; 128] = [
    24, 24, 24, 24, 24, 24, 24, 24, 14, 14, 14, 14, 14, 14, 14, 14, 21, 21, 21, 21, 21, 9, 13, 23, 24, 24, 24, 24, 24,
    24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 24, 9, 9, 9, 9, 9, 9, 15, 2, 9, 9, 9, 9, 21, 21, 21, 9, 17, 11, 18, 17, 18,
    18, 18, 18, 17, 17, 11, 11, 18, 18, 18, 22, 22, 22, 13, 13, 13, 13, 8, 13, 3, 4, 13, 6, 6, 6, 7, 7, 5, 5, 5, 21, 5,
    5, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 24, 24, 24, 24, 24, 18, 9, 18, 14, 14, 2, 19, 2, 2, 2, 12, 23, 23, 16, 8, 14, 23,
    1, 23,
];
pub const CYMBAL: u8 = 12;
pub const SNARE: u8 = 19;
pub const SNARE_NOTE: u8 = 68;
pub const DRUMS: u8 = 9;

pub fn fold_pitch(mut p: u8) -> u8 {
    while p < 24 {
        p += 12;
    }
    while p > 95 {
        p -= 12;
    }
    p
}

#[derive(Clone, Debug, PartialEq)]
pub struct ExpNote {
    pub ch: u8,
    pub start: u32,
    pub end: u32,
    /// pitch byte expected in the driver stream
    pub pitch: u8,
    pub vel: u8,
    /// driver instrument
    pub instr: Option<u8>,
    /// channel volume byte at note start, if the channel has set one
    pub vol: Option<u8>,
    /// later volume changes while the note sounds: (tick, value)
    pub vol_changes: Vec<(u32, u8)>,
}

#[derive(Clone, Debug, Default)]
pub struct Expected {
    pub tpb: u16,
    pub notes: Vec<ExpNote>,
    pub tempos: Vec<(u32, u32)>,
    /// last tick of any channel event
    pub end: u32,
    /// peak number of notes sounding at once
    pub peak: usize,
    /// sum over channels of per-channel peaks
    pub peak_sum: usize,
    pub channels: usize,
    /// notes that were cut by a re-strike of the same key
    pub restrikes: usize,
    /// the tempo at the start is the one of a file that sets none
    pub default_tempo: bool,
}

fn prio(e: &MEv) -> u8 {
    match *e {
        MEv::Off { .. } => 0,
        MEv::On { vel: 0, .. } => 0,
        MEv::On { .. } => 2,
        _ => 1,
    }
}

pub fn expect(s: &Smf) -> Expected {
    let mut evs: Vec<(u32, u8, &MEv)> = vec![];
    for t in &s.tracks {
        // a note that ends at the tick of its start plays for one tick; but a note-off at the tick at which its key is
        // struck again belongs to the note that sounded until then
        let mut on: HashMap<(u8, u8), u32> = HashMap::new();
        let mut cut: HashMap<(u8, u8), u32> = HashMap::new();
        for (at, e) in t {
            let mut at = *at;
            match *e {
                MEv::Off { ch, note, .. } | MEv::On { ch, note, vel: 0 } => {
                    let key = (ch, note);
                    if cut.get(&key) == Some(&at) {
                        cut.remove(&key);
                    } else if on.remove(&key) == Some(at) {
                        at += 1;
                    }
                }
                MEv::On { ch, note, .. } => {
                    if let Some(before) = on.insert((ch, note), at) {
                        if before < at {
                            cut.insert((ch, note), at);
                        }
                    }
                }
                _ => {}
            }
            evs.push((at, prio(e), e));
        }
    }
    evs.sort_by_key(|&(t, p, _)| (t, p));
    let mut x = Expected { tpb: s.tpb, ..Default::default() };
    // a channel that sends no program plays the first
    let mut prog: [u8; 16] = [0; 16];
    let mut vol: [Option<u8>; 16] = [None; 16];
    // (ch, key, index into notes)
    let mut open: Vec<(u8, u8, usize)> = vec![];
    let mut peak_ch = [0usize; 16];
    for &(t, _, e) in &evs {
        if !matches!(e, MEv::Tempo(_) | MEv::Meta(..) | MEv::SysEx(_)) {
            x.end = x.end.max(t);
        }
        match *e {
            MEv::Tempo(us) => x.tempos.push((t, us)),
            MEv::Prog { ch, prog: p } => prog[ch as usize] = p,
            MEv::Cc { ch, ctl: 7, val } => {
                vol[ch as usize] = Some(val * 2);
                for &(c, _, i) in &open {
                    if c == ch {
                        x.notes[i].vol_changes.push((t, val * 2));
                    }
                }
            }
            MEv::Off { ch, note, .. } | MEv::On { ch, note, vel: 0 } => {
                if let Some(k) = open.iter().position(|&(c, n, _)| c == ch && n == note) {
                    let (_, _, i) = open.remove(k);
                    x.notes[i].end = t;
                }
            }
            MEv::On { ch, note, vel } => {
                if let Some(k) = open.iter().position(|&(c, n, _)| c == ch && n == note) {
                    let (_, _, i) = open.remove(k);
                    x.notes[i].end = t;
                    x.restrikes += 1;
                }
                let (pitch, instr) = if ch == DRUMS {
                    if note == 38 || note == 40 {
                        (SNARE_NOTE, Some(SNARE))
                    } else {
                        (fold_pitch(note), Some(CYMBAL))
                    }
                } else {
                    (fold_pitch(note), Some(GM[prog[ch as usize] as usize]))
                };
                open.push((ch, note, x.notes.len()));
                x.notes.push(ExpNote {
                    ch,
                    start: t,
                    end: t,
                    pitch: pitch + 0x68,
                    vel,
                    instr,
                    vol: vol[ch as usize],
                    vol_changes: vec![],
                });
                x.peak = x.peak.max(open.len());
                let n = open.iter().filter(|o| o.0 == ch).count();
                peak_ch[ch as usize] = peak_ch[ch as usize].max(n);
            }
            _ => {}
        }
    }
    // a file that sets no tempo at its start starts at 120 beats per minute
    if !x.notes.is_empty() && !x.tempos.iter().any(|t| t.0 == 0) {
        x.tempos.insert(0, (0, 500_000));
        x.default_tempo = true;
    }
    x.peak_sum = peak_ch.iter().sum();
    x.channels = peak_ch.iter().filter(|&&p| p > 0).count();
    x
}

#[derive(Clone, Debug, PartialEq)]
pub struct OutNote {
    pub voice: usize,
    pub start: u64,
    /// units from onset until the next rest/note (ties included)
    pub slot: u64,
    pub pitch: u8,
    pub vel: u8,
    pub q: u8,
    pub instr: Option<u8>,
    pub vol: u8,
    pub vol_changes: Vec<(u64, u8)>,
    /// reached by a pitch slide instead of an attack
    pub slid: bool,
    pub instr_changed_during: bool,
}

impl OutNote {
    /// Range of sounding lengths (units) the gate value allows: q eighths of the slot, 7 meaning "nearly all".
    pub fn sounding(&self) -> (f64, f64) {
        if self.q >= 7 {
            (self.slot as f64 * 7.0 / 8.0, self.slot as f64)
        } else {
            let n = self.slot as f64 * self.q as f64 / 8.0;
            (n, n)
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Observed {
    pub notes: Vec<OutNote>,
    /// (unit, value, voice)
    pub tempos: Vec<(u64, u8, usize)>,
    pub totals: Vec<u64>,
    pub slides: usize,
}

pub fn observe(voices: &[Played]) -> Result<Observed, String> {
    let mut o = Observed::default();
    for (v, p) in voices.iter().enumerate() {
        let mut t = 0u64;
        let mut instr = None;
        // every voice starts with a preamble that sets the channel volume
        let mut vol = 0u8;
        let mut cur: Option<usize> = None;
        let mut slide: Option<u8> = None;
        let mut i = 0;
        while i < p.evs.len() {
            match &p.evs[i] {
                Ev::Note { pitch, dur, velq } => {
                    slide = None;
                    cur = Some(o.notes.len());
                    o.notes.push(OutNote {
                        voice: v,
                        start: t,
                        slot: *dur as u64,
                        pitch: *pitch,
                        vel: velq & 15,
                        q: velq >> 4,
                        instr,
                        vol,
                        vol_changes: vec![],
                        slid: false,
                        instr_changed_during: false,
                    });
                    t += *dur as u64;
                }
                Ev::Tie { dur } => {
                    let c = cur.ok_or_else(|| format!("voice {}: tie at unit {} continues nothing", v, t))?;
                    if let Some(target) = slide.take() {
                        let vel = o.notes[c].vel;
                        cur = Some(o.notes.len());
                        o.notes.push(OutNote {
                            voice: v,
                            start: t,
                            slot: *dur as u64,
                            pitch: target,
                            vel,
                            q: 7,
                            instr,
                            vol,
                            vol_changes: vec![],
                            slid: true,
                            instr_changed_during: false,
                        });
                    } else {
                        o.notes[c].slot += *dur as u64;
                    }
                    t += *dur as u64;
                }
                Ev::Rest { dur } => {
                    cur = None;
                    slide = None;
                    t += *dur as u64;
                }
                Ev::Perc { idx, .. } => return Err(format!("voice {}: percussion note {:02x} in a converted song", v, idx)),
                Ev::Cmd { op, args } => match op {
                    0xe0 => {
                        instr = Some(args[0]);
                        if let Some(c) = cur {
                            // only matters if the note goes on after this
                            if matches!(next_durational(&p.evs[i + 1..]), Some(Ev::Tie { .. })) {
                                o.notes[c].instr_changed_during = true;
                            }
                        }
                    }
                    0xe7 => o.tempos.push((t, args[0], v)),
                    0xed => {
                        vol = args[0];
                        if let Some(c) = cur {
                            if matches!(next_durational(&p.evs[i + 1..]), Some(Ev::Tie { .. })) {
                                o.notes[c].vol_changes.push((t, args[0]));
                            }
                        }
                    }
                    0xf9 => {
                        o.slides += 1;
                        slide = Some(args[2]);
                    }
                    // preamble only
                    0xe5 | 0xfa => {}
                    _ => return Err(format!("voice {}: unexpected command {:02x} {:02x?} in a converted song", v, op, args)),
                },
            }
            i += 1;
        }
        o.totals.push(t);
    }
    Ok(o)
}

fn next_durational(e: &[Ev]) -> Option<&Ev> {
    e.iter().find(|e| e.dur() > 0)
}
