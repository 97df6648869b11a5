#![allow(unexpected_cfgs)]
mod gen;
mod jsong;
mod romimg;
mod perf;
mod props;
mod runner;
mod smf;
mod spc;
mod sut;

/// Converted size of each song of the repository's sample manifest (development aid).
fn sizes() {
    let m = midi2spc::manifest::Manifest::new(std::path::Path::new("/repo/sample/manifest.json")).expect("manifest");
    for b in &m.banks {
        let mut sum = 0;
        for s in &b.songs {
            let p = s.input.as_ref().unwrap();
            let n = |o| match sut::convert_path(p, s.tempo_factor, o) {
                sut::Outcome::Ok(i) => i.tracks.iter().map(|t| t.len()).sum::<usize>() + 24,
                sut::Outcome::Err(_) => 0,
                sut::Outcome::Panic(_) => 0,
            };
            let k = n(true);
            println!("  {:30} {:6} {:6}", p.file_name().unwrap().to_string_lossy(), k, n(false));
            sum += k;
        }
        println!("{} {}", b.name, sum);
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("sizes") {
        sut::install_hook();
        return sizes();
    }
    runner::main(props::all());
}
