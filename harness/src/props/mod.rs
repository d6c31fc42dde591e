use crate::core::Property;

mod containers;
mod degenerate;
mod fields;
mod grep;
mod pipes;
mod purity;
mod reading;
mod tools;
mod util;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(reading::all());
    v.extend(fields::all());
    v.extend(containers::all());
    v.extend(grep::all());
    v.extend(degenerate::all());
    v.extend(pipes::all());
    v.extend(tools::all());
    v.extend(purity::all());
    v.sort_by_key(|p| p.id);
    v
}
