//@ module rose
use crate::verif::*;
use crate::Mode;
/// params: bytes of data, bytes behind the scratch state.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c22_scan() {
    let (n, k) = (param(0) as usize, param(1) as usize);
    let (mut data, mut state) = ([0u8; 300], [0u8; 300]);
    fill(&mut data[..n], "data");
    fill(&mut state[..k], "state");
    let old = state;
    let x = sym_u8("engine");
    assume(x < 3);
    let y = sym_u8("mode");
    assume(y < 3);
    let db = crate::Database::new(RoseEngine {
        runtime_impl: match split(x as usize) { 0 => RoseRuntimeImpl::FullRose, 1 => RoseRuntimeImpl::PureLiteral, _ => RoseRuntimeImpl::SingleOutfix },
        mode: match split(y as usize) { 0 => Mode::Block, 1 => Mode::Stream(None), _ => Mode::Vectored },
    });
    let p = if k == 0 { std::ptr::null_mut() } else { state.as_mut_ptr() };
    let mut scratch = crate::Scratch { core_info: crate::scratch::CoreInfo { state: p } };
    let r = crate::scan(&db, &data[..n], &mut scratch);
    check(r.is_ok(), "scanning succeeds");
    check(scratch.core_info.state == p, "the scratch space is unchanged");
    let mut d = 0u8;
    for i in 0..300 { d |= unsafe { std::ptr::read_volatile(&state[i]) } ^ old[i] }
    check(d == 0, "what the scratch space points to is unchanged");
    observe(r.is_ok() as u64, "result");
    cover("scanned");
}
/// Whatever compiles can be scanned with.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c22_compiled() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let mut data = [0u8; 8];
    fill(&mut data, "data");
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let streaming = split(sym_bool("streaming") as usize) == 1;
    match crate::compile(s, crate::Flags::from_bits_truncate(text_flags(5)), &if streaming { Mode::Stream(None) } else { Mode::Block }) {
        Ok(db) => {
            let mut scratch = crate::Scratch { core_info: crate::scratch::CoreInfo { state: std::ptr::null_mut() } };
            check(crate::scan(&db, &data, &mut scratch).is_ok(), "scanning succeeds");
            check(scratch.core_info.state.is_null(), "the scratch space is unchanged");
            cover("compiled and scanned");
            std::mem::forget(db);
        }
        Err(e) => std::mem::forget(e),
    }
}
