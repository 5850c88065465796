//@ module lib
/// The last run of digits in a message, as a number.
fn last_number(m: &[u8]) -> Option<usize> {
    let mut e = m.len();
    while e > 0 && !m[e - 1].is_ascii_digit() { e -= 1 }
    let mut s = e;
    while s > 0 && m[s - 1].is_ascii_digit() { s -= 1 }
    if s == e { return None }
    Some(m[s..e].iter().fold(0usize, |a, d| a * 10 + (d - b'0') as usize))
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c03_where() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let bits = text_flags(5);
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let e = match compile(s, Flags::from_bits_truncate(bits), &Mode::Block) { Ok(d) => { std::mem::forget(d); cover("accepted"); return } Err(e) => e };
    let w = if param(6) == 1 { want_parsed(&b[..n], bits) } else { want(&b[..n], bits) };
    let m = e.reason.as_bytes();
    let kind = split(w.kind as usize);
    let at = split(w.at);
    observe(kind as u64, "kind");
    observe(at as u64, "index");
    if kind == What::UnsupportedVerb as usize || kind == What::UnknownVerb as usize {
        let head: &[u8] = if kind == What::UnknownVerb as usize { b"Unknown control verb " } else { b"Unsupported control verb " };
        let v = split(w.start);
        let verb = &b[2..v - 1];
        check(last_number(m) == Some(2), "a bad control verb is at index 2");
        check(m.len() > head.len() + verb.len() && &m[..head.len()] == head, "the message says whether the verb is unsupported or unknown");
        let mut d = 0u8;
        for i in 0..verb.len() { d |= m[head.len() + i] ^ verb[i] }
        check(d == 0 && m[head.len() + verb.len()] == b' ', "the message names the verb");
        if kind == What::UnknownVerb as usize { cover("unknown verb") } else { cover("unsupported verb") }
    } else if kind >= What::Unmatched as usize {
        check(last_number(m) == Some(at), "the message carries the byte index of the problem");
        if kind == What::Unmatched as usize { cover("unmatched") } else if kind == What::NonAscii as usize { cover("non-ASCII") } else { cover("unclosed") }
    } else {
        check(kind == What::BadFlags as usize, "rejected with a reason");
    }
    std::mem::forget(e);
}
