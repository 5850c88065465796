//@ module util
use crate::verif::*;
use super::bitfield::BitField256;
fn to_bf(r: Raw) -> BitField256 { unsafe { std::mem::transmute::<Raw, BitField256>(r) } }
macro_rules! range { ($conv:expr) => {{
    let r = any_set("set");
    let (from, to, d) = (sym_u8("from"), sym_u8("to"), sym_u8("d"));
    let mut s = $conv(r);
    let ok = attempt(|| s.set_range(from, to)).is_some();
    check(ok == (from <= to), "set_range panics exactly for a reversed range");
    let want = has(&r, d) | ((from <= d) & (d <= to) & ok);
    check(s.test(d) == want, "set_range adds exactly the range");
    observe(s.test(d) as u64, "member");
    if ok { cover("range") } else { cover("reversed range") }
}} }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c26_charreach() { range!(to_cr) }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c26_bitfield() { range!(to_bf) }
