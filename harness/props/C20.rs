//@ module rose
use crate::verif::*;
use crate::{Mode, SomHorizon};
/// params: the text.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c20_mode() {
    let x = sym_u8("mode");
    assume(x < 6);
    let x = split(x as usize);
    let mode = match x { 0 => Mode::Block, 1 => Mode::Stream(None), 2 => Mode::Stream(Some(SomHorizon::Large)), 3 => Mode::Stream(Some(SomHorizon::Medium)), 4 => Mode::Stream(Some(SomHorizon::Small)), _ => Mode::Vectored };
    check(mode.is_streaming() == (x > 0), "streaming and vectored count as streaming");
    check(mode.is_vectored() == (x == 5), "only vectored counts as vectored");
    check(mode.som_precision() == [0, 0, 8, 4, 2, 8][x], "the start-of-match precision is that of the horizon");
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    match crate::compile(s, crate::Flags::from_bits_truncate(text_flags(5)), &mode) {
        Ok(db) => {
            let m = &crate::database::get_bytecode(&db).mode;
            let got = match m { Mode::Block => 0, Mode::Stream(_) => 1, Mode::Vectored => 2 };
            check(got == [0, 1, 1, 1, 1, 2][x], "the database remembers the mode it was compiled for");
            observe(got as u64, "mode");
            cover(["block", "streaming", "vectored"][got]);
            std::mem::forget(db);
        }
        Err(e) => { cover("rejected"); std::mem::forget(e) }
    }
}
