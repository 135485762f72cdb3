mod css;
mod memory;
mod reports;
mod several;
mod misuse;
mod total;
mod layout;
mod roundtrip;
mod history;
mod structure;
mod tables;
mod text;
pub mod values;

use crate::driver::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(history::all());
    v.extend(structure::all());
    v.extend(css::all());
    v.extend(text::all());
    v.extend(tables::all());
    v.extend(values::all());
    v.extend(memory::all());
    v.extend(misuse::all());
    v.extend(reports::all());
    v.extend(several::all());
    v.extend(total::all());
    v.extend(layout::all());
    v.extend(roundtrip::all());
    v
}
