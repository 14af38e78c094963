//! One function per property; each returns the families to be explored.

use crate::engine::Property;

mod bad;
mod correct;
mod detect;
mod drawn;
pub mod effort;
mod helpers;
mod hist;
mod image;
mod margin;
mod payload;
mod symbol;
mod writer;

pub const IDS: [&str; 28] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
];

pub fn build(id: &str, thorough: bool) -> Option<Property> {
    Some(match id {
        "C01" => symbol::c01(thorough),
        "C02" => symbol::c02(thorough),
        "C03" => correct::c03(thorough),
        "C04" => correct::c04(thorough),
        "C05" => symbol::c05(thorough),
        "C06" => payload::c06(thorough),
        "C07" => payload::c07(thorough),
        "C08" => symbol::c08(thorough),
        "C09" => symbol::c09(thorough),
        "C10" => writer::c10(thorough),
        "C11" => detect::c11(thorough),
        "C12" => detect::c12(thorough),
        "C13" => image::c13(thorough),
        "C14" => image::c14(thorough),
        "C15" => detect::c15(thorough),
        "C16" => detect::c16(thorough),
        "C17" => image::c17(thorough),
        "C18" => image::c18(thorough),
        "C19" => detect::c19(thorough),
        "C20" => detect::c20(thorough),
        "C21" => helpers::c21(thorough),
        "C22" => drawn::c22(thorough),
        "C23" => drawn::c23(thorough),
        "C24" => bad::c24(thorough),
        "C25" => bad::c25(thorough),
        "C26" => margin::c26(thorough),
        "C27" => effort::c27(thorough),
        "C28" => hist::c28(thorough),
        _ => return None,
    })
}
