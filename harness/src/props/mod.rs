mod batch;
mod calc;
mod cost;
mod hist;
mod neutral;
mod swaps;
mod twins;
pub mod upgrade;
pub mod util;
mod wire;
use crate::driver::*;
pub fn get(id: &str) -> Option<Property> {
    Some(match id {
        "C01" => hist::c01(),
        "C02" => hist::c02(),
        "C03" => hist::c03(),
        "C04" => hist::c04(),
        "C06" => hist::c06(),
        "C07" => hist::c07(),
        "C08" => hist::c08(),
        "C10" => hist::c10(),
        "C12" => hist::c12(),
        "C15" => hist::c15(),
        "C16" => hist::c16(),
        "C17" => hist::c17(),
        "C18" => hist::c18(),
        "C23" => hist::c23(),
        "C24" => hist::c24(),
        "C05" => swaps::c05(),
        "C13" => calc::c13(),
        "C14" => calc::c14(),
        "C20" => calc::c20(),
        "C28" => swaps::c28(),
        "C09" => batch::c09(),
        "C11" => batch::c11(),
        "C21" => cost::c21(),
        "C22" => wire::c22(),
        "C26" => wire::c26(),
        "C19" => twins::c19(),
        "C25" => twins::c25(),
        "C27" => twins::c27(),
        "C29" => neutral::c29(),
        "C30" => neutral::c30(),
        "C31" => neutral::c31(),
        "C32" => neutral::c32(),
        "C33" => upgrade::c33(),
        _ => return None,
    })
}
