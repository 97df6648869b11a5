use crate::runner::Property;
pub mod cli;
pub mod crash;
pub mod dump;
pub mod hostile;
pub mod more;
pub mod rom;
pub mod size;
pub mod song;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(song::properties());
    v.extend(rom::properties());
    v.extend(more::properties());
    v.extend(hostile::properties());
    v.extend(crash::properties());
    v.extend(size::properties());
    v.extend(dump::properties());
    v.extend(cli::properties());
    v.sort_by_key(|p| p.id);
    v
}
