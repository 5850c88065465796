//@ module util
use crate::verif::*;
#[no_mangle]
pub extern "C-unwind" fn vh_h_c28_caseless() {
    let r = any_set("set");
    let d = sym_u8("d");
    let mut s = to_cr(r);
    make_caseless(&mut s);
    let low = d | 0x20;
    let letter = (low >= b'a') & (low <= b'z');
    let want = has(&r, d) | (letter & has(&r, d ^ 0x20));
    check(s.test(d) == want, "exactly the case twins are added");
    let mut t = s;
    make_caseless(&mut t);
    check(t == s, "twice is once");
    observe(s.test(d) as u64, "member");
    cover("caseless");
}
