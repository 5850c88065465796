//@ module parser
use crate::verif::*;
#[no_mangle]
pub extern "C-unwind" fn vh_h_c09_literal() {
    let x = sym_u32("c");
    let nocase = sym_bool("nocase");
    let d = sym_u8("witness");
    let c = match std::char::from_u32(x) { Some(c) => c, None => return };
    match get_literal_component_class(c, nocase) {
        Ok(ComponentClass::Ascii(k)) => {
            check(x <= 0xff, "characters above U+00FF are refused");
            let r = unsafe { std::mem::transmute::<crate::util::CharReach, Raw>(k.cr) };
            let low = x | 0x20;
            let twin = nocase & (low >= 0x61) & (low <= 0x7a);
            let want = (d as u32 == x) | (twin & (d as u32 == x ^ 0x20));
            check(has(&r, d) == want, "the class holds the character, and its other case if caseless, and nothing else");
            observe(has(&r, d) as u64, "member");
            if nocase { cover("caseless") } else { cover("case-sensitive") }
        }
        Err(e) => {
            check(x > 0xff, "characters up to U+00FF have a class");
            cover("refused");
            std::mem::forget(e);
        }
    }
}
