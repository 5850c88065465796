//@ module util
use crate::verif::*;
#[no_mangle]
pub extern "C-unwind" fn vh_h_c31_fill() {
    let r = param_set(1, "set");
    let n = param(0) as usize;
    let mut b = [0u8; 40];
    fill(&mut b[..n], "buffer");
    let old = b;
    super::charreach::fill_bitvector(&to_cr(r), &mut b[..n]);
    let mut diff = 0u8;
    for i in 0..32 { diff |= b[i] ^ r[i] }
    check(diff == 0, "bit c%8 of byte c/8 is set exactly for the members");
    for i in 32..40 { check(b[i] == old[i], "bytes beyond the 32nd are untouched") }
    let mut h = 0u64; for i in 0..32 { h = h.rotate_left(5) ^ b[i] as u64 }
    observe(h, "bits");
    cover("filled");
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c31_short() {
    let n = sym_u8("length") as usize;
    assume(n < 32);
    let n = split(n);
    let mut r = [0u8; 32];
    r[3] = sym_u8("part");
    let mut b = [0u8; 32];
    check(attempt(|| super::charreach::fill_bitvector(&to_cr(r), &mut b[..n])).is_none(), "a buffer shorter than 32 bytes panics");
    cover("short");
}
