//@ module util
use crate::verif::*;
use super::bitfield::BitField256;
use std::cmp::Ordering;
fn to_bf(r: Raw) -> BitField256 { unsafe { std::mem::transmute::<Raw, BitField256>(r) } }
fn same(a: &Raw, b: &Raw) -> bool { let mut x = 0u8; for i in 0..32 { x |= a[i] ^ b[i] } x == 0 }
macro_rules! algebra { ($conv:expr) => {{
    let (ra, rb) = (any_set("a"), any_set("b"));
    let d = sym_u8("d");
    let (a, b) = ($conv(ra), $conv(rb));
    let (x, y) = (has(&ra, d), has(&rb, d));
    check((a | b).test(d) == (x | y), "| is union");
    check((a & b).test(d) == (x & y), "& is intersection");
    check((a ^ b).test(d) == (x ^ y), "^ is symmetric difference");
    check((!a).test(d) == !x, "! is complement");
    let mut t = a; t |= b; check(t.test(d) == (x | y), "|= is union");
    let mut t = a; t &= b; check(t.test(d) == (x & y), "&= is intersection");
    let mut t = a; t ^= b; check(t.test(d) == (x ^ y), "^= is symmetric difference");
    let e = a == b;
    check(e == same(&ra, &rb), "equality means the same members");
    check((a != b) == !e, "!= is the negation of ==");
    observe(e as u64, "equal");
    cover("algebra");
}} }
macro_rules! order { ($conv:expr) => {{
    let (ra, rb, rc) = (any_set("a"), any_set("b"), any_set("c"));
    let (a, b, c) = ($conv(ra), $conv(rb), $conv(rc));
    let (ab, ba, bc, ac) = (a.cmp(&b) as i8, b.cmp(&a) as i8, b.cmp(&c) as i8, a.cmp(&c) as i8);
    check((ab == 0) == same(&ra, &rb), "sets compare equal exactly when they are");
    check(ab == -ba, "the ordering is antisymmetric");
    check(!((ab <= 0) & (bc <= 0)) | (ac <= 0), "the ordering is transitive");
    check(!((ab < 0) & (bc < 0)) | (ac < 0), "the strict ordering is transitive");
    let p = match a.partial_cmp(&b) { Some(Ordering::Less) => -1i8, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1, None => 5 };
    check(p == ab, "partial_cmp agrees with cmp");
    observe((ab + 1) as u64, "cmp");
    cover("ordered");
}} }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c24_charreach() { algebra!(to_cr) }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c24_bitfield() { algebra!(to_bf) }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c24_order_charreach() { order!(to_cr) }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c24_order_bitfield() { order!(to_bf) }
