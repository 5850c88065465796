//@ module util
use crate::verif::*;
use super::bitfield::BitField256;
fn to_bf(r: Raw) -> BitField256 { unsafe { std::mem::transmute::<Raw, BitField256>(r) } }
macro_rules! update { ($conv:expr, $op:expr) => {{
    let r = any_set("set");
    let c = sym_u8("c");
    let d = sym_u8("d");
    let mut s = $conv(r);
    check(s.test(d) == has(&r, d), "test reports membership");
    let was = has(&r, d);
    let want = match $op {
        0 => { s.set(c); (d == c) | was }
        1 => { s.reset(c); (d != c) & was }
        2 => { s.flip(c); (d == c) ^ was }
        3 => { s.set_all(); true }
        4 => { s.reset_all(); false }
        _ => { s.flip_all(); !was }
    };
    check(s.test(d) == want, "an update changes exactly the requested members");
    observe(s.test(d) as u64, "member");
    cover("updated");
}} }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c23_charreach() { update!(to_cr, param(0)) }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c23_bitfield() { update!(to_bf, param(0)) }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c23_default() {
    let d = sym_u8("d");
    check(!CharReach::default().test(d), "a default set is empty");
    check(!BitField256::default().test(d), "a default bit field is empty");
    cover("default");
}
