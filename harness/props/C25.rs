//@ module util
use crate::verif::*;
fn any_bit(r: &Raw) -> bool { let mut x = 0u8; for b in r.iter() { x |= *b } x != 0 }
fn every_bit(r: &Raw) -> bool { let mut x = 255u8; for b in r.iter() { x &= *b } x == 255 }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c25_ends() {
    let r = any_set("set");
    let d = sym_u8("d");
    let s = to_cr(r);
    match s.find_first() {
        None => { check(!has(&r, d), "find_first is absent only for the empty set"); cover("no first") }
        Some(f) => { check(has(&r, f), "find_first is a member"); check(!has(&r, d) | (d >= f), "find_first is the smallest member"); observe(f as u64, "first"); cover("first") }
    }
    match s.find_last() {
        None => check(!has(&r, d), "find_last is absent only for the empty set"),
        Some(l) => { check(has(&r, l), "find_last is a member"); check(!has(&r, d) | (d <= l), "find_last is the largest member"); observe(l as u64, "last"); cover("last") }
    }
    check(s.none() == !any_bit(&r), "none means no member");
    check(s.any() == any_bit(&r), "any means some member");
    check(s.all() == every_bit(&r), "all means every byte");
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c25_next() {
    let r = any_set("set");
    let b = sym_u8("b");
    let d = sym_u8("d");
    match to_cr(r).find_next(b) {
        None => { check(!has(&r, d) | (d <= b), "find_next is absent only if no member follows"); cover("no next") }
        Some(n) => { check(n > b, "find_next is greater"); check(has(&r, n), "find_next is a member"); check(!has(&r, d) | (d <= b) | (d >= n), "find_next is the smallest greater member"); observe(n as u64, "next"); cover("next") }
    }
}
/// The count grows by exactly one with each new member; with the empty set's count of 0 that fixes it.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c25_count_step() {
    let s = any_set("set");
    for c in param(0)..param(1) {
        let mut r = s;
        let c = c as u8;
        let n = to_cr(r).count();
        let was = has(&r, c);
        put(&mut r, c);
        check(to_cr(r).count() == n + !was as u32, "the count grows by one with a new member");
    }
    cover("step");
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c25_count() {
    let r = param_set(0, "set");
    let s = to_cr(r);
    let mut n = 0u32;
    for c in 0..256usize { n += ((r[c / 8] >> (c % 8)) & 1) as u32 }
    check(s.count() == n, "count is the number of members");
    check(s.none() == (n == 0), "none agrees with the count");
    check(s.any() == (n != 0), "any agrees with the count");
    check(s.all() == (n == 256), "all agrees with the count");
    observe(s.count() as u64, "count");
    cover("count");
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c25_nth() {
    let r = param_set(1, "set");
    let k = sym_u8("n");
    let s = to_cr(r);
    let f = s.find_nth(k);
    let mut n = 0u32;
    let mut below = 0u32;
    let m = f.unwrap_or(0);
    for c in 0..256usize { let b = ((r[c / 8] >> (c % 8)) & 1) as u32; n += b; if (c as u8) < m { below += b } }
    match f {
        None => { check(n <= k as u32, "find_nth is absent only if there are too few members"); cover("no nth") }
        Some(m) => { check(has(&r, m), "find_nth is a member"); check(below == k as u32, "find_nth has n smaller members"); observe(m as u64, "nth"); cover("nth") }
    }
}

/// One word of the set is arbitrary, the words before it are a concrete background and those after it empty:
/// member number k is the one that follows member number k-1.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c25_nth_word() {
    let (w, bg, from, to) = (param(0) as usize, param(1), param(2), param(3));
    let mut r = [0u8; 32];
    let mut base = 0u64;
    for c in 0..w * 64 {
        let on = match bg { 0 => false, 1 => true, 2 => c % 5 == 0, _ => c % 64 == 63 || c % 64 == 0 };
        if on { r[c / 8] |= 1 << (c % 8); base += 1 }
    }
    fill(&mut r[w * 8..w * 8 + 8], "word");
    let s = to_cr(r);
    for k in from..to {
        let n = base + k;
        if n > 255 { break }
        let cur = s.find_nth(n as u8);
        let want = if n == 0 { s.find_first() } else { match s.find_nth((n - 1) as u8) { None => None, Some(p) => s.find_next(p) } };
        check(cur == want, "member number k follows member number k-1");
        if cur.is_some() { cover("nth in word") } else { cover("no nth in word") }
    }
}
