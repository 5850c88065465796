//@ module util
use crate::verif::*;
use super::ue2common::*;
macro_rules! align { ($t:ty, $v:expr, $max:expr) => {{
    let v: $t = $v;
    let k: u32 = sym_u8("log2 of n") as u32 & 7;
    let n: u8 = 1 << k;
    let m: $t = (n - 1) as $t;
    let fit = |m: $t| v <= $max - m;
    // least multiple not below: a multiple, not below, and less than one step away
    macro_rules! up { ($f:expr, $m:expr, $what:expr) => { if fit($m) { let u = $f; check((u & $m == 0) & (u >= v) & (u - v <= $m), $what); observe(u as u64, $what) } else { cover("not representable") } } }
    macro_rules! down { ($f:expr, $m:expr, $what:expr) => { let u = $f; check((u & $m == 0) & (u <= v) & (v - u <= $m), $what) } }
    up!(round_up_16(v), 15, "round_up_16");
    down!(round_down_16(v), 15, "round_down_16");
    up!(round_up_n(v, n), m, "round_up_n");
    down!(round_down_n(v, n), m, "round_down_n");
    up!(round_up_cache_line(v), 63, "round_up_cache_line");
    cover("aligned");
}} }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c36_align() {
    let v = sym_u64("v");
    match param(0) {
        0 => align!(u8, v as u8, u8::max_value()),
        1 => align!(u16, v as u16, u16::max_value()),
        2 => align!(u32, v as u32, u32::max_value()),
        3 => align!(u64, v, u64::max_value()),
        4 => align!(usize, v as usize, usize::max_value()),
        5 => align!(i32, { assume((v as u32) >> 31 == 0); v as i32 }, i32::max_value()),
        6 => align!(i64, { assume(v >> 63 == 0); v as i64 }, i64::max_value()),
        _ => align!(u128, ((v as u128) << 64) | sym_u64("low") as u128, u128::max_value()),
    }
}
