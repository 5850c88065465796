//@ module lib
fn any_mode(x: usize) -> Mode {
    match x { 0 => Mode::Block, 1 => Mode::Stream(None), 2 => Mode::Stream(Some(SomHorizon::Large)), 3 => Mode::Stream(Some(SomHorizon::Medium)), 4 => Mode::Stream(Some(SomHorizon::Small)), _ => Mode::Vectored }
}
/// params: the text, flags, mode, copies: a list of that many copies, each with any match ID, the first with any flags.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c01_total() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let bits = text_flags(5);
    let mode = any_mode(param(6) as usize);
    let k = param(7) as usize;
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let f = Flags::from_bits_truncate(bits);
    let ok = if k == 0 {
        match compile(s, f, &mode) { Ok(d) => { drop(d); true } Err(e) => { if param(8) == 1 { let m = e.to_string(); check(!m.is_empty(), "an error has a text"); } drop(e); false } }
    } else {
        let (mut ids, mut fl) = ([0u32; 4], [f, f, f, f]);
        for i in 0..k { ids[i] = sym_u32("id"); assume(ids[i] < 10); if i == 0 { fl[i] = Flags::from_bits_truncate(sym_u16("first flags")) } }
        match compile_multi(&[s, s, s, s][..k], &fl[..k], &ids[..k], &mode) { Ok(d) => { drop(d); true } Err(e) => { drop(e); false } }
    };
    observe(ok as u64, "compiled");
    if ok { cover("database") } else { cover("error") }
}
