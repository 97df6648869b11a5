//! Fake ROMs: layout generation, and a decoder that follows a ROM the way the console does.
use crate::spc::{play, Aram, Played};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub const SONGS: [usize; 3] = [15, 16, 3];
pub const FIRST: [usize; 3] = [0x36, 0x46, 0x46];
pub const SLOT0: [usize; 3] = [0, 15, 31];
pub const ARAM: usize = 0xd000;
pub const DEFAULT_ADDRS: [u32; 3] = [0x914, 0x926, 0x932];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BankG {
    /// lengths and audio RAM addresses of chunks before the song chunk
    pub before: Vec<(u16, u16)>,
    pub after: Vec<(u16, u16)>,
    pub over_aram: u16,
    /// free space before the chain
    pub gap: u16,
    /// last two bytes of the terminator
    pub entry: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RomG {
    pub banks: Vec<BankG>,
    /// None: default addresses
    pub addrs: Option<[u32; 3]>,
    /// order of the chains in the file
    pub order: Vec<usize>,
    pub fill: u64,
    pub tail: u16,
    /// extra 32 KiB banks in front of the chains
    pub skip: u8,
    /// pointers in the last of those instead of the first
    pub far: bool,
}

fn other_aram() -> BoxedStrategy<u16> {
    prop_oneof![Just(0x4000u16), Just(0x3c00), Just(0x2900), 0u16..0xd000, Just(0), Just(0xcfff), Just(0xd001), 0xd001u16..0xd100, 0xd100u16..=0xffff].boxed()
}

pub fn rom_s(wild_addrs: bool) -> BoxedStrategy<RomG> {
    let chunk = || (prop_oneof![3 => 1u16..40, 1 => 40u16..600], other_aram());
    let over = prop_oneof![3 => prop::sample::select(vec![0x2b00u16, 0x2880, 0x2900]), 1 => 0x0200u16..0x6000];
    let bank = (prop::collection::vec(chunk(), 0..=2), prop::collection::vec(chunk(), 0..=2), over, prop_oneof![1 => Just(0u16), 2 => 0u16..200], prop_oneof![6 => any::<u16>(), 2 => Just(0x800u16), 1 => Just(0xd000u16)])
        .prop_map(|(before, after, over_aram, gap, entry)| BankG { before, after, over_aram, gap, entry });
    let addrs = if wild_addrs {
        // three non-overlapping groups of a, a+4, a+8
        prop_oneof![
            2 => Just(None),
            1 => (0x10u32..0x7000, 12u32..0x400, 12u32..0x400).prop_map(|(a, b, c)| Some([a, a + b, a + b + c])),
            1 => (0x10u32..0x7000, 12u32..0x400, 12u32..0x400).prop_map(|(a, b, c)| Some([a + b + c, a, a + b])),
            // full SNES addresses (upper half of bank 0), and interleaved groups
            1 => (0x10u32..0x7000, 12u32..0x400, 12u32..0x400).prop_map(|(a, b, c)| Some([0x8000 + a, 0x8000 + a + b, 0x8000 + a + b + c])),
            1 => (0x10u32..0x7000).prop_map(|a| Some([a, a + 1, a + 2])),
        ]
        .prop_flat_map(|a| (Just(a), 0usize..9))
        // in any order
        .prop_map(|(a, p)| a.map(|a| [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]].get(p).map_or(a, |p| p.map(|i| a[i]))))
        .boxed()
    } else {
        Just(None).boxed()
    };
    (
        prop::collection::vec(bank, 3),
        addrs,
        Just(vec![0usize, 1, 2]).prop_shuffle(),
        any::<u64>(),
        0u16..300,
        prop_oneof![6 => Just(0u8), 4 => 1u8..4, 1 => 4u8..0x30],
        any::<bool>(),
    )
        .prop_map(|(banks, addrs, order, fill, tail, skip, far)| RomG { banks, addrs, order, fill, tail, skip, far })
        .boxed()
}

pub struct Rom {
    pub data: Vec<u8>,
    /// per bank: file offset and length of the data of the song chunk and the chunk after it
    pub base: [(usize, usize); 3],
    pub over: [(usize, usize); 3],
}

/// LoROM mapping: 32 KiB per bank, in the upper half of the bank.
pub fn pc_of_snes(a: u32) -> usize {
    let bank = ((a >> 16) & 0x7f) as usize;
    bank * 0x8000 + (a & 0x7fff) as usize
}

pub fn snes_of_pc(p: usize) -> u32 {
    (((p >> 15) as u32) << 16) | 0x8000 | (p as u32 & 0x7fff)
}

fn mix(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^ (x >> 33)
}

impl RomG {
    pub fn addrs(&self) -> [u32; 3] {
        match self.addrs {
            None => DEFAULT_ADDRS,
            Some(a) if self.far && self.skip > 0 => a.map(|a| snes_of_pc(a as usize % 0x8000 + 0x8000 * self.skip as usize)),
            Some(a) => a,
        }
    }

    /// lens: data length of the song chunk and the following chunk of each bank; None for no such chunk.
    pub fn build(&self, lens: &[(Option<usize>, Option<usize>); 3]) -> Rom {
        let mut pos = 0x8000 * (1 + self.skip as usize);
        let mut chains: Vec<(usize, Vec<(usize, Option<(usize, usize)>)>, u16)> = vec![];
        let mut base = [(0, 0); 3];
        let mut over = [(0, 0); 3];
        for &b in &self.order {
            let g = &self.banks[b];
            pos += g.gap as usize;
            let start = pos;
            let mut list = vec![];
            let mut add = |len: usize, aram: usize, pos: &mut usize| -> usize {
                list.push((*pos, Some((len, aram))));
                let d = *pos + 4;
                *pos = d + len;
                d
            };
            for &(l, a) in &g.before {
                add(l as usize, a as usize, &mut pos);
            }
            if let Some(l) = lens[b].0 {
                base[b] = (add(l, ARAM, &mut pos), l);
                if let Some(l) = lens[b].1 {
                    if l > 0 {
                        over[b] = (add(l, g.over_aram as usize, &mut pos), l);
                    }
                }
            }
            if lens[b].1.map_or(false, |l| l > 0) || lens[b].0.is_none() {
                for &(l, a) in &g.after {
                    add(l as usize, a as usize, &mut pos);
                }
            }
            list.push((pos, None));
            pos += 4;
            chains.push((start, list, g.entry));
        }
        let size = pos + 8 + self.tail as usize;
        let mut data: Vec<u8> = Vec::with_capacity(size + 8);
        let mut i = 0;
        while data.len() < size {
            data.extend_from_slice(&mix(self.fill ^ i).to_le_bytes());
            i += 1;
        }
        data.truncate(size);
        let addrs = self.addrs();
        for (k, &b) in self.order.iter().enumerate() {
            let (start, list, entry) = &chains[k];
            let s = snes_of_pc(*start);
            let a = addrs[b];
            data[pc_of_snes(a)] = s as u8;
            data[pc_of_snes(a + 4)] = (s >> 8) as u8;
            data[pc_of_snes(a + 8)] = (s >> 16) as u8;
            for (p, c) in list {
                let (l, ar) = c.unwrap_or((0, *entry as usize));
                data[*p] = l as u8;
                data[*p + 1] = (l >> 8) as u8;
                data[*p + 2] = ar as u8;
                data[*p + 3] = (ar >> 8) as u8;
            }
        }
        Rom { data, base, over }
    }
}

pub struct ChunkAt {
    pub header: usize,
    pub data: usize,
    pub len: usize,
    pub aram: usize,
}

/// The chunk chain a bank pointer leads to, terminator included (length 0).
pub fn chain(rom: &[u8], addr: u32) -> Result<Vec<ChunkAt>, String> {
    let at = |p: usize| rom.get(p).copied().ok_or_else(|| format!("offset {:#x} outside the ROM", p));
    let lo = at(pc_of_snes(addr))? as u32;
    let hi = at(pc_of_snes(addr + 4))? as u32;
    let bk = at(pc_of_snes(addr + 8))? as u32;
    let mut p = pc_of_snes(bk << 16 | hi << 8 | lo);
    let mut v = vec![];
    loop {
        let len = at(p)? as usize | (at(p + 1)? as usize) << 8;
        let aram = at(p + 2)? as usize | (at(p + 3)? as usize) << 8;
        v.push(ChunkAt { header: p, data: p + 4, len, aram });
        if len == 0 {
            return Ok(v);
        }
        p += 4 + len;
    }
}

/// What the console plays for one slot.
#[derive(Debug, PartialEq)]
pub struct SlotPlay {
    pub voices: Vec<Played>,
    pub loops: bool,
}

/// Audio RAM after uploading a bank's song data (song chunk and the one after it).
pub fn upload(rom: &[u8], addr: u32) -> Result<Aram, String> {
    let c = chain(rom, addr)?;
    let i = c.iter().position(|c| c.len > 0 && c.aram == ARAM).ok_or("no song chunk")?;
    let mut m = Aram::new();
    for k in &c[i..(i + 2).min(c.len())] {
        m.load(k.aram, rom.get(k.data..k.data + k.len).ok_or("chunk outside the ROM")?);
    }
    Ok(m)
}

pub fn slot(m: &Aram, index: usize) -> Result<SlotPlay, String> {
    let song = m.word(ARAM + index * 2)?;
    if song == 0 {
        return Err("song table entry is empty".into());
    }
    let part = m.word(song)?;
    if part < 0x100 {
        return Err(format!("song at {:#06x} starts with {:#06x}", song, part));
    }
    let loops = match m.word(song + 2)? {
        0 => false,
        0xff => {
            let to = m.word(song + 4)?;
            if to != song {
                return Err(format!("song at {:#06x} loops to {:#06x}", song, to));
            }
            if m.word(song + 6)? != 0 {
                return Err(format!("song at {:#06x} does not end after its loop", song));
            }
            true
        }
        w => return Err(format!("song at {:#06x} continues with {:#06x}", song, w)),
    };
    let mut voices = vec![];
    for v in 0..8 {
        let t = m.word(part + v * 2)?;
        voices.push(if t == 0 {
            Played::default()
        } else {
            let mut p = play(m, t).map_err(|e| format!("voice {}: {}", v, e))?;
            p.end = 0;
            p
        });
    }
    Ok(SlotPlay { voices, loops })
}
