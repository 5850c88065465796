//@ module lib
// Helpers shared by all harnesses.
extern "C-unwind" {
    fn vh_sym(p: *mut u8, n: usize, np: *const u8, nl: usize);
    fn vh_assume(b: bool);
    fn vh_check(b: bool, p: *const u8, n: usize);
    fn vh_cover(p: *const u8, n: usize);
    fn vh_observe(v: u64, p: *const u8, n: usize);
    fn vh_param(i: u64) -> u64;
    fn vh_concretize(v: u64) -> u64;
    fn vh_catch(f: fn(*mut u8), p: *mut u8) -> u32;
}
/// `n` fresh symbolic bytes.
#[allow(dead_code)]
pub(crate) fn fill(b: &mut [u8], name: &str) {
    unsafe { vh_sym(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
#[allow(dead_code)]
pub(crate) fn sym_u8(name: &str) -> u8 { let mut b = [0u8; 1]; fill(&mut b, name); b[0] }
#[allow(dead_code)]
pub(crate) fn sym_bool(name: &str) -> bool { sym_u8(name) & 1 == 1 }
#[allow(dead_code)]
pub(crate) fn sym_u16(name: &str) -> u16 { let mut b = [0u8; 2]; fill(&mut b, name); u16::from_le_bytes(b) }
#[allow(dead_code)]
pub(crate) fn sym_u32(name: &str) -> u32 { let mut b = [0u8; 4]; fill(&mut b, name); u32::from_le_bytes(b) }
#[allow(dead_code)]
pub(crate) fn sym_u64(name: &str) -> u64 { let mut b = [0u8; 8]; fill(&mut b, name); u64::from_le_bytes(b) }
#[allow(dead_code)]
pub(crate) fn assume(b: bool) { unsafe { vh_assume(b) } }
#[allow(dead_code)]
pub(crate) fn check(b: bool, msg: &str) { unsafe { vh_check(b, msg.as_ptr(), msg.len()) } }
#[allow(dead_code)]
pub(crate) fn cover(msg: &str) { unsafe { vh_cover(msg.as_ptr(), msg.len()) } }
/// A value the native replay of a sampled path must reproduce.
#[allow(dead_code)]
pub(crate) fn observe(v: u64, name: &str) { unsafe { vh_observe(v, name.as_ptr(), name.len()) } }
#[allow(dead_code)]
pub(crate) fn param(i: u64) -> u64 { unsafe { vh_param(i) } }
/// One path per value from here on.
#[allow(dead_code)]
pub(crate) fn split(v: usize) -> usize { unsafe { vh_concretize(v as u64) as usize } }
/// Runs `f`; `None` if it panicked.
#[allow(dead_code)]
pub(crate) fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    struct Job<T, F>(Option<F>, Option<T>);
    fn go<T, F: FnOnce() -> T>(p: *mut u8) {
        let j = unsafe { &mut *(p as *mut Job<T, F>) };
        j.1 = Some((j.0.take().unwrap())());
    }
    let mut j = Job(Some(f), None);
    let r = unsafe { vh_catch(go::<T, F>, &mut j as *mut Job<T, F> as *mut u8) };
    if r != 0 { std::mem::forget(j); return None; }
    j.1.take()
}
#[allow(unused_imports)]
use crate::util::CharReach;
/// A byte set as 32 bytes: c is a member if bit c%8 of byte c/8 is set.
pub(crate) type Raw = [u8; 32];
#[allow(dead_code)]
pub(crate) fn has(r: &Raw, c: u8) -> bool { (r[(c >> 3) as usize] >> (c & 7)) & 1 == 1 }
#[allow(dead_code)]
pub(crate) fn put(r: &mut Raw, c: u8) { r[(c >> 3) as usize] |= 1 << (c & 7) }
#[allow(dead_code)]
pub(crate) fn to_cr(r: Raw) -> CharReach { unsafe { std::mem::transmute::<Raw, CharReach>(r) } }
/// An arbitrary set: all 2^256.
#[allow(dead_code)]
pub(crate) fn any_set(name: &str) -> Raw { let mut r = [0u8; 32]; fill(&mut r, name); r }
/// A set that is arbitrary on `len` (at most 64) consecutive members from `lo` on, over a concrete background:
/// 0 empty, 1 full, 2 every fifth byte, 3 the letters and digits, 4 everything but the letters and digits,
/// 5 these and the underscore, 6 the white space, 7 both, 8 the digits and the white space.
#[allow(dead_code)]
pub(crate) fn window_set(lo: u64, len: u64, bg: u64, name: &str) -> Raw {
    let mut r = [0u8; 32];
    for c in 0..256usize {
        let an = (c as u8).is_ascii_alphanumeric();
        let (ws, digit) = ((c >= 9 && c <= 13) || c == 32, (c as u8).is_ascii_digit());
        let on = match bg { 0 => false, 1 => true, 2 => c % 5 == 0, 3 => an, 4 => !an, 5 => an || c == 95, 6 => ws, 7 => an || c == 95 || ws, _ => digit || ws };
        if on { r[c / 8] |= 1 << (c % 8) }
    }
    let n = ((len + 7) / 8) as usize;
    let mut b = [0u8; 8];
    fill(&mut b[..n], name);
    for i in 0..len {
        let c = lo + i;
        if c > 255 { break }
        let bit = (b[(i / 8) as usize] >> (i % 8)) & 1;
        let byte = &mut r[(c / 8) as usize];
        *byte = (*byte & !(1 << (c % 8))) | (bit << (c % 8));
    }
    r
}
/// The set of `n` (at most 8) arbitrary bytes, not necessarily different, or its complement.
#[allow(dead_code)]
pub(crate) fn few_set(n: u64, complement: bool, name: &str) -> Raw {
    let mut b = [0u8; 8];
    fill(&mut b[..n as usize], name);
    let mut r = [0u8; 32];
    for i in 0..32u8 {
        let mut w = 0u8;
        for k in 0..n as usize {
            let hit = ((b[k] >> 3) == i) as u8;
            w |= hit << (b[k] & 7);
        }
        r[i as usize] = if complement { !w } else { w };
    }
    r
}
/// Like window_set with two windows of `len` (at most 8) members, from `lo` and from `lo2` on; `how` is len + 16 * background.
#[allow(dead_code)]
pub(crate) fn two_windows(lo: u64, lo2: u64, how: u64, name: &str) -> Raw {
    let mut r = window_set(lo, how % 16, how / 16, name);
    let b = sym_u8(name);
    for i in 0..how % 16 {
        let c = (lo2 + i) as usize;
        if c > 255 { break }
        r[c / 8] = (r[c / 8] & !(1 << (c % 8))) | (((b >> i) & 1) << (c % 8));
    }
    r
}
/// The set a run asks for: params [kind, x, y, z], kind 0 few_set(x, y), 1 window_set(x, y, z), 2 two_windows(x, y, z).
#[allow(dead_code)]
pub(crate) fn param_set(at: u64, name: &str) -> Raw {
    match param(at) {
        0 => few_set(param(at + 1), param(at + 2) != 0, name),
        1 => window_set(param(at + 1), param(at + 2), param(at + 3), name),
        _ => two_windows(param(at + 1), param(at + 2), param(at + 3), name),
    }
}
