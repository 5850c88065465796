//@ module compiler
use crate::verif::*;
fn on(bits: u16, f: Flags) -> bool { bits & f.bits() != 0 }
/// param 5: whether the text is to be parsed caselessly as well.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c08_expression() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let (bits, index, id) = (sym_u16("flags"), sym_u64("index") as usize, sym_u32("id"));
    let r = ParsedExpression::new(index, s, Flags::from_bits_truncate(bits), id);
    let w = want(&b[..n], bits);
    check(r.is_ok() == (w.kind == What::Fine as u32), "parsed exactly when it should be");
    match r {
        Ok(p) => {
            let e = &p.expr;
            check(e.index == index, "the index is the caller's");
            check(e.report == id, "the match ID is the caller's");
            check(e.highlander == (bits & 0x8 != 0), "SINGLEMATCH, and nothing else, makes an expression match once");
            check(e.prefilter == (bits & 0x80 != 0), "PREFILTER, and nothing else, makes an expression a prefilter");
            check(e.quiet == (bits & 0x400 != 0), "QUIET, and nothing else, makes an expression quiet");
            check(e.utf8 == ((bits & 0x20 != 0) | w.utf8), "UTF8 or (*UTF), and nothing else, makes an expression UTF-8");
            check(e.som == SomType::None, "no flag asks for start of match");
            observe(e.utf8 as u64, "utf8");
            observe(e.highlander as u64, "highlander");
            if e.utf8 { cover("utf8") } else { cover("not utf8") }
            std::mem::forget(p);
        }
        Err(e) => { cover("rejected"); std::mem::forget(e) }
    }
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c08_mode() {
    let bits = sym_u16("flags");
    let m = ParseMode::new(Flags::from_bits_truncate(bits));
    check(m.caseless == (bits & 1 != 0), "CASELESS is CASELESS");
    check(m.dotall == (bits & 2 != 0), "DOTALL is DOTALL");
    check(m.multiline == (bits & 4 != 0), "MULTILINE is MULTILINE");
    check(m.utf8 == (bits & 0x20 != 0), "UTF8 is UTF8");
    check(m.ucp == (bits & 0x40 != 0), "UCP is UCP");
    check(!m.ignore_space, "no flag ignores white space");
    observe(m.caseless as u64, "caseless");
    cover("mode");
    check(Flags::CASELESS.bits() == 1 && Flags::DOTALL.bits() == 2 && Flags::MULTILINE.bits() == 4 && Flags::SINGLEMATCH.bits() == 8 && Flags::ALLOWEMPTY.bits() == 0x10
        && Flags::UTF8.bits() == 0x20 && Flags::UCP.bits() == 0x40 && Flags::PREFILTER.bits() == 0x80 && Flags::SOM_LEFTMOST.bits() == 0x100 && Flags::COMBINATION.bits() == 0x200 && Flags::QUIET.bits() == 0x400, "the flags are distinct bits");
}
