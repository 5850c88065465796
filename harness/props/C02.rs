//@ module lib
#[no_mangle]
pub extern "C-unwind" fn vh_h_c02_language() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let bits = text_flags(5);
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let r = compile(s, Flags::from_bits_truncate(bits), &Mode::Block);
    let w = if param(6) == 1 { want_parsed(&b[..n], bits) } else { want(&b[..n], bits) };
    observe(r.is_ok() as u64, "accepted");
    if r.is_ok() { cover("accepted") } else { cover("rejected") }
    check(r.is_ok() == (w.kind == What::Fine as u32), "accepted exactly when the language has it");
    std::mem::forget(r);
}
