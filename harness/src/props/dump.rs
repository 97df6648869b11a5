//! C23: the dump of a MIDI file.
use crate::gen::*;
use crate::props::cli::*;
use crate::props::song::*;
use crate::runner::*;
use crate::smf::*;
use crate::sut::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DumpCase {
    src: Src,
    verbose: bool,
    /// cut the file to this part of 65536
    cut: Option<u16>,
    /// events sent once more without time between, or some of their neighbours
    #[serde(default)]
    again: Vec<(u16, u8)>,
}

/// The events of a file with the time since the event before, the way the reader library prints them.
fn listed(s: &Smf) -> Vec<(u32, String)> {
    let mut out = vec![];
    for t in &s.tracks {
        let mut last = 0;
        for (at, e) in t {
            let delta = at - last;
            last = *at;
            let text = match e {
                MEv::Off { ch, note, vel } => format!("NoteOff{{ch:{},note:{},velocity:{}}}", ch, note, vel),
                MEv::On { ch, note, vel } => format!("NoteOn{{ch:{},note:{},velocity:{}}}", ch, note, vel),
                MEv::PolyP { ch, note, val } => format!("PolyphonicKeyPressure{{ch:{},note:{},velocity:{}}}", ch, note, val),
                MEv::Cc { ch, ctl, val } => format!("ControlChange{{ch:{},control:{},data:{}}}", ch, ctl, val),
                MEv::Prog { ch, prog } => format!("ProgramChange{{ch:{},program:{}}}", ch, prog),
                MEv::ChanP { ch, val } => format!("ChannelPressure{{ch:{},pressure:{}}}", ch, val),
                // (the reader library miscalculates the value, which midi2spc has no use for)
                MEv::Bend { ch, .. } => format!("PitchBendChange{{ch:{},data:", ch),
                MEv::Tempo(us) => format!("SetTempo,data:[{},{},{}]", us >> 16, us >> 8 & 255, us & 255),
                _ => continue,
            };
            out.push((delta, text));
        }
    }
    out
}

/// Positions of the file's events in the dump, which may print more than them: the first one that is missing.
fn missing(dump: &str, want: &[(u32, String)]) -> Option<usize> {
    let mut rest = dump;
    for (i, (delta, text)) in want.iter().enumerate() {
        let key = format!("delta_time:{},event:{}", delta, text);
        match rest.find(&key) {
            Some(at) => rest = &rest[at + key.len()..],
            None => return Some(i),
        }
    }
    None
}

fn dump_check(c: &DumpCase, o: &mut Obs) -> Verdict {
    let Some((mut smf, mut bytes)) = c.src.load() else { return Ok(()) };
    if !c.again.is_empty() {
        for &(k, n) in &c.again {
            let lens: Vec<usize> = smf.tracks.iter().map(|t| t.len()).collect();
            let mut i = k as usize % lens.iter().sum::<usize>().max(1);
            for (t, len) in smf.tracks.iter_mut().zip(lens) {
                if i < len {
                    let copy: Vec<_> = t[i..len.min(i + 1 + n as usize % 3)].iter().map(|e| (t[i].0, e.1.clone())).collect();
                    if copy.iter().all(|e| channel_of(&e.1).is_some()) {
                        t.splice(i..i, copy);
                    }
                    break;
                }
                i -= len;
            }
        }
        bytes = encode(&smf);
    }
    let bytes = match c.cut {
        Some(n) => bytes[..n as usize * bytes.len() / 65536].to_vec(),
        None => bytes,
    };
    let sc = Scratch::new();
    sc.file("song.mid", &bytes);
    let mut a = vec!["dump_midi".to_string(), "song.mid".to_string()];
    if c.verbose {
        a.insert(0, "-v".to_string());
    }
    let r = run(&sc.0, &a);
    let mut files: Vec<_> = std::fs::read_dir(&sc.0).unwrap().map(|f| f.unwrap().file_name()).collect();
    files.sort();
    if files != ["song.mid"] || std::fs::read(sc.0.join("song.mid")).unwrap() != bytes {
        return Err(format!("dump_midi leaves {:?} behind", files));
    }
    let text: String = String::from_utf8_lossy(&r.out).split_whitespace().collect::<String>().replace(",}", "}").replace(",]", "]").replace(",)", ")");
    let converts = matches!(convert_midi(&bytes, 0.2, false), Outcome::Ok(_));
    if c.cut.is_some() {
        if !converts && !text.contains("rror") && !r.err.contains("rror") && !r.err.contains("panicked") {
            return Err("dump_midi does not say that the file cannot be read".into());
        }
        o.when(!converts, "cut file");
        return Ok(());
    }
    if !r.ok {
        return Err(format!("dump_midi fails: {}", r.err));
    }
    let want = listed(&smf);
    if let Some(i) = missing(&text, &want) {
        return Err(format!("the dump misses event {} of {}, {} after {} ticks, or it comes too early", i, want.len(), want[i].1, want[i].0));
    }
    o.nontrivial = want.len() > 8;
    o.when(!converts, "cannot be converted");
    o.when(smf.tracks.len() > 2, "several tracks");
    Ok(())
}

fn dump_s(t: Tier) -> BoxedStrategy<DumpCase> {
    let src = prop_oneof![
        3 => song(Cfg { max_segs: 3, long: false, ..Default::default() }).prop_map(Src::Gen),
        1 => song(Cfg { max_segs: 2, long: false, fit: false, ..Default::default() }).prop_map(Src::Gen),
        1 => soup(6, 6, 40).prop_map(Src::Soup),
        1 => porta_s(t),
        1 => edge_s(t),
    ];
    (src, prop::bool::weighted(0.2), prop::option::weighted(0.1, any::<u16>()), prop::collection::vec(any::<(u16, u8)>(), 0..=3))
        .prop_map(|(src, verbose, cut, again)| DumpCase { src, verbose, cut, again })
        .boxed()
}

fn none(_: Tier) -> Vec<DumpCase> {
    vec![]
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C23",
        rule: "Generated files with all kinds of events, also ones that cannot be converted, and cut files; non-trivial: the file has more than eight channel and tempo events.",
        assumptions: &["events are printed the way the reader library prints them"],
        arms: vec![Box::new(Arm { name: "dump", cases: (2400, 20000), strategy: dump_s, check: dump_check, fixed: none })],
    }]
}
