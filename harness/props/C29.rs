//@ module util
use crate::verif::*;
fn zip(a: &Raw, f: impl Fn(usize, u8) -> u8) -> bool { let mut x = 0u8; for i in 0..32 { x |= f(i, a[i]) } x != 0 }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c29_relations() {
    let (ra, rb) = (any_set("a"), any_set("b"));
    let (a, b) = (to_cr(ra), to_cr(rb));
    check(a.is_subset_of(&b) == !zip(&ra, |i, x| x & !rb[i]), "is_subset_of is the subset relation");
    check(a.overlaps(&b) == zip(&ra, |i, x| x & rb[i]), "overlaps means a common member");
    check(a.is_ascii() == !zip(&ra, |i, x| if i >= 16 { x } else { 0 }), "is_ascii means no byte above 0x7f");
    check(a.is_utf8_start() == !zip(&ra, |i, x| if i < 24 { x } else { 0 }), "is_utf8_start means no byte below 0xc0");
    observe(a.is_ascii() as u64, "ascii");
    cover("relations");
}
/// All letters and nothing else in `r`, as byte masks: letters are 41..5a and 61..7a.
fn letter_mask(i: usize) -> u8 { match i { 8 | 12 => 0xfe, 9 | 10 | 13 | 14 => 0xff, 11 | 15 => 0x07, _ => 0 } }
fn alphabetic(r: &Raw) -> bool { zip(r, |_, x| x) & !zip(r, |i, x| x & !letter_mask(i)) }
fn bit5_closed(r: &Raw) -> bool { let mut x = 0u8; for i in 0..32 { x |= r[i] ^ r[i ^ 4] } x == 0 }
fn caseless_pair(r: &Raw) -> bool {
    let mut any = false;
    for c in b'A'..=b'Z' {
        let mut p = [0u8; 32];
        put(&mut p, c);
        put(&mut p, c + 32);
        any |= !zip(r, |i, x| x ^ p[i]);
    }
    any
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c29_alphabetic() {
    let r = param_set(0, "set");
    let a = to_cr(r).is_alphabetic();
    check(a == alphabetic(&r), "is_alphabetic means non-empty and only letters");
    observe(a as u64, "alphabetic");
    if a { cover("alphabetic") } else { cover("not alphabetic") }
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c29_bit5() {
    let r = param_set(0, "set");
    let a = to_cr(r).is_bit5_insensitive();
    check(a == bit5_closed(&r), "is_bit5_insensitive means closed under flipping bit 5");
    observe(a as u64, "bit 5");
    if a { cover("bit 5") } else { cover("not bit 5") }
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c29_pair() {
    let r = param_set(0, "set");
    let a = to_cr(r).is_caseless_char();
    check(a == caseless_pair(&r), "is_caseless_char means exactly an upper-case letter and its twin");
    observe(a as u64, "pair");
    if a { cover("pair") } else { cover("no pair") }
}
/// The sets {a, b} and {a, b, x}, where x stands for one byte next to or twinned with a.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c29_pair_of() {
    let a = split((sym_u8("a") & 31) as usize) as u8 + 32 * param(0) as u8;
    let b = sym_u8("b");
    let mut r = [0u8; 32];
    let d = param(1);
    for i in 0..32u8 { let hit = ((b >> 3) == i) as u8; r[i as usize] = hit << (b & 7) }
    put(&mut r, a);
    if d == 1 { put(&mut r, a ^ 0x20) }
    if d == 2 { put(&mut r, a.wrapping_add(1)) }
    let p = to_cr(r).is_caseless_char();
    check(p == caseless_pair(&r), "is_caseless_char means exactly an upper-case letter and its twin");
    observe(p as u64, "pair");
    if p { cover("pair") } else { cover("no pair") }
}
