//@ module parser
use crate::verif::*;
#[no_mangle]
pub extern "C-unwind" fn vh_h_c07_verb() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let m = sym_u8("mode");
    let old = ParseMode { caseless: m & 1 != 0, dotall: m & 2 != 0, ignore_space: m & 4 != 0, multiline: m & 8 != 0, ucp: m & 16 != 0, utf8: m & 32 != 0 };
    let mut new = old;
    let r = read_control_verbs(s, 0, &mut new);
    let w = want(&b[..n], 0);
    let bad = (w.kind == What::UnsupportedVerb as u32) | (w.kind == What::UnknownVerb as u32);
    match r {
        Ok(rest) => {
            check(!bad, "an unsupported or unknown verb is rejected");
            check(rest.len() == n - w.start, "parsing continues right after the verb");
            check(rest.as_ptr() as usize == s.as_ptr() as usize + w.start, "what is left is the end of the text");
            check(new.utf8 == (old.utf8 | w.utf8), "(*UTF8) and (*UTF), and nothing else, turn on UTF-8 mode");
            check(new.ucp == (old.ucp | w.ucp), "(*UCP), and nothing else, turns on UCP mode");
            check((new.caseless == old.caseless) & (new.dotall == old.dotall) & (new.ignore_space == old.ignore_space) & (new.multiline == old.multiline), "a verb changes nothing else in the mode");
            observe(rest.len() as u64, "left");
            observe(new.utf8 as u64 * 2 + new.ucp as u64, "mode");
            if rest.len() == n { cover("no verb") } else if new.ucp & !old.ucp { cover("UCP") } else if new.utf8 & !old.utf8 { cover("UTF") } else { cover("already on") }
        }
        Err(e) => {
            check(bad, "only an unsupported or unknown verb is rejected");
            let unsupported = e.reason.as_bytes().starts_with(b"Unsupported");
            check(unsupported == (w.kind == What::UnsupportedVerb as u32), "the listed verbs are unsupported, all others unknown");
            observe(unsupported as u64, "unsupported");
            if unsupported { cover("unsupported") } else { cover("unknown") }
            std::mem::forget(e);
        }
    }
}
