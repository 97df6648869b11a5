//! Standard MIDI file writer and a small independent reader.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MEv {
    Off { ch: u8, note: u8, vel: u8 },
    On { ch: u8, note: u8, vel: u8 },
    PolyP { ch: u8, note: u8, val: u8 },
    Cc { ch: u8, ctl: u8, val: u8 },
    Prog { ch: u8, prog: u8 },
    ChanP { ch: u8, val: u8 },
    Bend { ch: u8, lo: u8, hi: u8 },
    Tempo(u32),
    Meta(u8, Vec<u8>),
    SysEx(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Smf {
    pub format: u16,
    pub tpb: u16,
    /// absolute tick, event; in file order (ticks non-decreasing)
    pub tracks: Vec<Vec<(u32, MEv)>>,
    pub running: bool,
}

pub fn vlq(mut v: u32, out: &mut Vec<u8>) {
    let mut tmp = vec![(v & 0x7f) as u8];
    v >>= 7;
    while v > 0 {
        tmp.push((v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
    tmp.reverse();
    out.extend(tmp);
}

fn encode_track(evs: &[(u32, MEv)], running: bool) -> Vec<u8> {
    let mut d = vec![];
    let mut last = 0u32;
    let mut status = 0u8;
    for (t, e) in evs {
        vlq(t - last, &mut d);
        last = *t;
        let mut chan = |st: u8, data: &[u8], d: &mut Vec<u8>| {
            if !(running && status == st) {
                d.push(st);
            }
            status = st;
            d.extend_from_slice(data);
        };
        match *e {
            MEv::Off { ch, note, vel } => chan(0x80 | ch, &[note, vel], &mut d),
            MEv::On { ch, note, vel } => chan(0x90 | ch, &[note, vel], &mut d),
            MEv::PolyP { ch, note, val } => chan(0xa0 | ch, &[note, val], &mut d),
            MEv::Cc { ch, ctl, val } => chan(0xb0 | ch, &[ctl, val], &mut d),
            MEv::Prog { ch, prog } => chan(0xc0 | ch, &[prog], &mut d),
            MEv::ChanP { ch, val } => chan(0xd0 | ch, &[val], &mut d),
            MEv::Bend { ch, lo, hi } => chan(0xe0 | ch, &[lo, hi], &mut d),
            MEv::Tempo(us) => {
                status = 0;
                d.extend_from_slice(&[0xff, 0x51, 3, (us >> 16) as u8, (us >> 8) as u8, us as u8]);
            }
            MEv::Meta(ty, ref data) => {
                status = 0;
                d.extend_from_slice(&[0xff, ty]);
                vlq(data.len() as u32, &mut d);
                d.extend_from_slice(data);
            }
            MEv::SysEx(ref data) => {
                status = 0;
                d.push(0xf0);
                vlq(data.len() as u32 + 1, &mut d);
                d.extend_from_slice(data);
                d.push(0xf7);
            }
        }
    }
    d
}

pub fn encode(s: &Smf) -> Vec<u8> {
    let mut f = b"MThd".to_vec();
    f.extend_from_slice(&6u32.to_be_bytes());
    f.extend_from_slice(&s.format.to_be_bytes());
    f.extend_from_slice(&(s.tracks.len() as u16).to_be_bytes());
    f.extend_from_slice(&s.tpb.to_be_bytes());
    for t in &s.tracks {
        let mut d = encode_track(t, s.running);
        let has_end = matches!(t.last(), Some((_, MEv::Meta(0x2f, _))));
        if !has_end {
            d.extend_from_slice(&[0, 0xff, 0x2f, 0]);
        }
        f.extend_from_slice(b"MTrk");
        f.extend_from_slice(&(d.len() as u32).to_be_bytes());
        f.extend(d);
    }
    f
}

/// Gives the tracks texts that put the tags of the tracks after them at the given places before the end of an 8 KiB
/// block of the file, where the reader library's buffer ends.
pub fn to_edges(s: &mut Smf, edges: &[(u8, u8)]) {
    let n = s.tracks.len();
    if n < 2 {
        return;
    }
    let mut edges: Vec<(usize, usize)> = edges.iter().map(|&(k, at)| (k as usize % (n - 1), at as usize)).collect();
    edges.sort();
    edges.dedup_by_key(|e| e.0);
    for (k, before) in edges {
        let upto = encode(&Smf { format: 1, tpb: s.tpb, tracks: s.tracks[..=k].to_vec(), running: s.running }).len();
        // delta, status, type and two bytes of length
        let text = (3 * 8192 - 5 - before - upto % 8192) % 8192;
        let text = if text < 128 { text + 8192 } else { text };
        s.tracks[k].insert(0, (0, MEv::Meta(1, vec![b'.'; text])));
    }
}

/// Strict reader for well-formed files (used for the sample corpus).
pub fn parse(b: &[u8]) -> Result<Smf, String> {
    let be16 = |o: usize| -> Result<u16, String> { Ok(u16::from_be_bytes([*b.get(o).ok_or("eof")?, *b.get(o + 1).ok_or("eof")?])) };
    if b.get(0..4) != Some(b"MThd") {
        return Err("no MThd".into());
    }
    let format = be16(8)?;
    let ntracks = be16(10)?;
    let tpb = be16(12)?;
    let mut pos = 14;
    let mut tracks = vec![];
    for _ in 0..ntracks {
        if b.get(pos..pos + 4) != Some(b"MTrk") {
            return Err(format!("no MTrk at {}", pos));
        }
        let len = u32::from_be_bytes([b[pos + 4], b[pos + 5], b[pos + 6], b[pos + 7]]) as usize;
        let d = b.get(pos + 8..pos + 8 + len).ok_or("short track")?;
        pos += 8 + len;
        let mut i = 0;
        let mut t = 0u32;
        let mut st = 0u8;
        let mut evs = vec![];
        fn rd(d: &[u8], i: &mut usize) -> Result<u8, String> {
            let v = *d.get(*i).ok_or("eof in track")?;
            *i += 1;
            Ok(v)
        }
        fn rv(d: &[u8], i: &mut usize) -> Result<u32, String> {
            let mut v = 0u32;
            loop {
                let x = rd(d, i)?;
                v = (v << 7) | (x & 0x7f) as u32;
                if x < 0x80 {
                    return Ok(v);
                }
            }
        }
        while i < d.len() {
            t += rv(d, &mut i)?;
            let mut s = rd(d, &mut i)?;
            if s < 0x80 {
                i -= 1;
                s = st;
            }
            let ch = s & 15;
            match s {
                0xff => {
                    let ty = rd(d, &mut i)?;
                    let n = rv(d, &mut i)? as usize;
                    let data = d.get(i..i + n).ok_or("eof in meta")?.to_vec();
                    i += n;
                    if ty == 0x51 && n == 3 {
                        evs.push((t, MEv::Tempo((data[0] as u32) << 16 | (data[1] as u32) << 8 | data[2] as u32)));
                    } else {
                        evs.push((t, MEv::Meta(ty, data)));
                    }
                }
                0xf0 | 0xf7 => {
                    let n = rv(d, &mut i)? as usize;
                    i += n;
                    evs.push((t, MEv::SysEx(vec![])));
                }
                0x80..=0xef => {
                    st = s;
                    let a = rd(d, &mut i)?;
                    let two = !matches!(s & 0xf0, 0xc0 | 0xd0);
                    let bb = if two { rd(d, &mut i)? } else { 0 };
                    evs.push((
                        t,
                        match s & 0xf0 {
                            0x80 => MEv::Off { ch, note: a, vel: bb },
                            0x90 => MEv::On { ch, note: a, vel: bb },
                            0xa0 => MEv::PolyP { ch, note: a, val: bb },
                            0xb0 => MEv::Cc { ch, ctl: a, val: bb },
                            0xc0 => MEv::Prog { ch, prog: a },
                            0xd0 => MEv::ChanP { ch, val: a },
                            _ => MEv::Bend { ch, lo: a, hi: bb },
                        },
                    ));
                }
                _ => return Err(format!("status {:x}", s)),
            }
        }
        tracks.push(evs);
    }
    Ok(Smf { format, tpb, tracks, running: false })
}
