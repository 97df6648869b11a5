//! Thin wrappers around the code under test: panics are captured and reported as an outcome.
use crate::spc::SongImage;
use midi2spc::{midi, nspc};
use std::cell::Cell;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! { static IN_SUT: Cell<bool> = Cell::new(false); static LAST: std::cell::RefCell<String> = Default::default(); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = format!("{}", i);
        if IN_SUT.with(|c| c.get()) {
            LAST.with(|l| *l.borrow_mut() = msg.replace('\n', " "));
        } else if std::thread::current().name() == Some("main") {
            eprintln!("harness panic: {}", msg);
            LAST.with(|l| *l.borrow_mut() = msg);
        }
    }));
}

/// Runs code under test; Err carries the panic message.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(false));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub enum Outcome<T> {
    Ok(T),
    /// clean error
    Err(String),
    Panic(String),
}

impl<T> Outcome<T> {
    pub fn failed(&self) -> bool {
        !matches!(self, Outcome::Ok(_))
    }
}

static SCRATCH_N: AtomicUsize = AtomicUsize::new(0);

pub fn scratch_root() -> PathBuf {
    std::env::temp_dir().join(format!("vharness-{}", std::process::id()))
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let p = scratch_root().join(format!("c{}", SCRATCH_N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn file(&self, name: &str, data: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, data).expect("scratch file");
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn image_of(song: &nspc::Song) -> Result<SongImage, String> {
    let mut img = SongImage::default();
    for i in 0..song.get_num_tracks() {
        let mut cur = Cursor::new(Vec::<u8>::new());
        let mut refs = vec![];
        song.write_track(&mut cur, i, &mut refs).map_err(|e| format!("{}", e))?;
        img.tracks.push(cur.into_inner());
        img.refs.push(refs.iter().map(|r| (r.ref_pos as usize, r.target_track)).collect());
    }
    img.part = song.get_part_tracks(0).to_vec();
    Ok(img)
}

/// MIDI bytes -> converted song -> track images.
pub fn convert_midi(bytes: &[u8], factor: f32, optimize: bool) -> Outcome<SongImage> {
    convert_midi_v(bytes, factor, optimize, false)
}

pub fn convert_midi_v(bytes: &[u8], factor: f32, optimize: bool, verbose: bool) -> Outcome<SongImage> {
    let sc = scratch_root();
    let p = sc.join("in.mid");
    if std::fs::write(&p, bytes).is_err() {
        std::fs::create_dir_all(&sc).expect("scratch");
        std::fs::write(&p, bytes).expect("scratch");
    }
    convert_path_v(&p, factor, optimize, verbose)
}

pub fn convert_path(p: &Path, factor: f32, optimize: bool) -> Outcome<SongImage> {
    convert_path_v(p, factor, optimize, false)
}

pub fn convert_path_v(p: &Path, factor: f32, optimize: bool, verbose: bool) -> Outcome<SongImage> {
    match sut(|| -> Result<SongImage, String> {
        let mut m = midi::MidiHandler::new();
        m.read(p, verbose).map_err(|e| format!("{}", e))?;
        let song = nspc::Song::from_midi(&m, factor, optimize, verbose).map_err(|e| format!("{}", e))?;
        image_of(&song)
    }) {
        Ok(Ok(v)) => Outcome::Ok(v),
        Ok(Err(e)) => Outcome::Err(e),
        Err(p) => Outcome::Panic(p),
    }
}
