//! Shared pieces of the harness programs.
pub use crate::sym::{self, check, choice, cover, eq, feq};
pub use crate::{job, Jobs};
pub use ifc_rs::prelude::*;
pub use ifc_rs::IFC;
pub use std::str::FromStr;

pub const HEAD: &str = "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION((''),'2;1');\nFILE_NAME('','2018-10-30T17:42:13',(''),(''),'','','');\nFILE_SCHEMA(('IFC4X3_ADD2'));\nENDSEC;\nDATA;\n";
pub const TAIL: &str = "ENDSEC;\nEND-ISO-10303-21;\n";
pub fn file(data: &str) -> String {
    let mut s = String::with_capacity(HEAD.len() + data.len() + TAIL.len());
    s.push_str(HEAD);
    s.push_str(data);
    s.push_str(TAIL);
    s
}
pub fn load(data: &str) -> Option<IFC> {
    sym::note(data);
    IFC::from_str(&file(data)).ok()
}
/// the text of the data section
pub fn data(d: &str) -> String {
    let mut s = String::with_capacity(d.len() + 20);
    s.push_str("DATA;\n");
    s.push_str(d);
    s.push_str("ENDSEC;\n");
    s
}
/// `d` (records in ascending id order, one per line) loads and is written unchanged
pub fn roundtrip(d: &str, id: &str) {
    match load(d) {
        None => check(false, &format!("{id}.rejected")),
        Some(f) => eq(&f.data.to_string(), &data(d), &format!("{id}.changed")),
    }
}
