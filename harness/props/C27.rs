//@ module util
use crate::verif::*;
#[no_mangle]
pub extern "C-unwind" fn vh_h_c27_char_range() {
    let (a, b, d) = (sym_u8("a"), sym_u8("b"), sym_u8("d"));
    check(CharReach::from_char(a).test(d) == (d == a), "from_char holds exactly its byte");
    check(CharReach::dot().test(d), "dot holds every byte");
    check(CharReach::dot().all(), "dot is the full set");
    match attempt(|| CharReach::from_range(a, b)) {
        Some(s) => { check(s.test(d) == ((a <= d) & (d <= b)), "from_range holds exactly its range"); cover("range") }
        None => { check(a > b, "from_range panics only for a reversed range"); cover("reversed range") }
    }
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c27_bytes() {
    let n = param(0) as usize;
    let mut b = [0u8; 1040];
    // the first bytes concrete (a long input), the last ones arbitrary
    let from = param(1) as usize;
    for i in 0..from { b[i] = (i * 37 % 100 + 5) as u8 } // leaves bytes out
    fill(&mut b[from..from + n], "bytes");
    let b = &b[..from + n];
    let d = sym_u8("d");
    let mut want = false;
    for x in b { want |= *x == d }
    check(CharReach::from_bytes(b).test(d) == want, "from_bytes holds exactly the bytes");
    let r = any_set("set");
    let mut s = to_cr(r);
    s.set_bytes(b);
    check(s.test(d) == (want | has(&r, d)), "set_bytes adds exactly the bytes");
    observe(s.test(d) as u64, "member");
    cover("bytes");
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c27_display() {
    let r = param_set(0, "set");
    let s = format!("{}", to_cr(r));
    let t = s.as_bytes();
    let mut at = 0usize;
    for c in 0..256usize {
        if has(&r, c as u8) {
            let n = if c < 128 { 1 } else { 2 };
            check(at + n <= t.len(), "the text lists every member");
            if n == 1 { check(t[at] == c as u8, "the text lists the members in order") }
            else { check((t[at] == 0xc0 | (c >> 6) as u8) & (t[at + 1] == 0x80 | (c & 0x3f) as u8), "the text lists the members in order") }
            at += n;
        }
    }
    check(at == t.len(), "the text lists nothing else");
    observe(t.len() as u64, "length");
    cover("text");
}
