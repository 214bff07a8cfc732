use crate::engine::Check;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;
pub mod c31;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31"];

pub fn check(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "C01" => c01::check(thorough),
        "C02" => c02::check(thorough),
        "C03" => c03::check(thorough),
        "C04" => c04::check(thorough),
        "C05" => c05::check(thorough),
        "C06" => c06::check(thorough),
        "C07" => c07::check(thorough),
        "C08" => c08::check(thorough),
        "C09" => c09::check(thorough),
        "C10" => c10::check(thorough),
        "C11" => c11::check(thorough),
        "C12" => c12::check(thorough),
        "C13" => c13::check(thorough),
        "C14" => c14::check(thorough),
        "C15" => c15::check(thorough),
        "C16" => c16::check(thorough),
        "C17" => c17::check(thorough),
        "C18" => c18::check(thorough),
        "C19" => c19::check(thorough),
        "C20" => c20::check(thorough),
        "C21" => c21::check(thorough),
        "C22" => c22::check(thorough),
        "C23" => c23::check(thorough),
        "C24" => c24::check(thorough),
        "C25" => c25::check(thorough),
        "C26" => c26::check(thorough),
        "C27" => c27::check(thorough),
        "C28" => c28::check(thorough),
        "C29" => c29::check(thorough),
        "C30" => c30::check(thorough),
        "C31" => c31::check(thorough),
        _ => return None,
    })
}
