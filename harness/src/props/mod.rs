use crate::engine::Suite;
pub mod conv;
pub mod deep;
pub mod f192;
pub mod hist;
pub mod ieee;
pub mod iter;
pub mod mat;
pub mod rat;
pub mod order;
pub mod sbig;
pub mod ubig;
pub mod ufun;
pub mod text;
pub mod undef;
pub mod variants;
pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"];
/// properties whose larger bounds take seconds only: the quick check explores those as well
const PROMOTED: &[&str] = &["C04", "C05", "C06", "C07", "C08", "C09", "C11", "C23", "C26"];
pub fn suites(p: &str, deep: bool) -> Vec<Suite> {
    let th = deep || PROMOTED.contains(&p);
    let mut v = suites_of(p, th);
    if th { for s in v.iter_mut() { if s.bound.contains('(') { s.bound.push_str(" [the larger bounds, in parentheses, were used]"); } } }
    if deep { v.extend(deep::suites(p)); }
    v
}
fn suites_of(p: &str, th: bool) -> Vec<Suite> {
    match p {
        "C01" => ubig::c01(th),
        "C02" => ubig::c02(th),
        "C03" => hist::c03(th),
        "C04" => variants::c04(th),
        "C05" => sbig::c05(th),
        "C06" => order::c06(th),
        "C16" => ufun::c16(th),
        "C17" => ufun::c17(th),
        "C07" => text::c07(th),
        "C08" => text::c08(th),
        "C09" => conv::c09(th),
        "C10" => rat::c10(th),
        "C11" => rat::c11(th),
        "C14" => ieee::c14(th),
        "C15" => ieee::c15(th),
        "C18" => iter::c18(th),
        "C19" => iter::c19(th),
        "C20" => mat::c20(th),
        "C21" => mat::c21(th),
        "C12" => text::c12(th),
        "C13" => text::c13(th),
        "C22" => f192::c22(th),
        "C23" => f192::c23(th),
        "C24" => f192::c24(th),
        "C25" => f192::c25(th),
        "C26" => undef::c26(th),
        _ => vec![],
    }
}
