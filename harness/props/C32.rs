//@ module util
use crate::verif::*;
use super::compare::*;
#[no_mangle]
pub extern "C-unwind" fn vh_h_c32_case() {
    let c = sym_u8("c");
    let up = (c >= b'A') & (c <= b'Z');
    let lo = (c >= b'a') & (c <= b'z');
    check(myisupper(c) == up, "myisupper holds exactly for A-Z");
    check(myislower(c) == lo, "myislower holds exactly for a-z");
    check(ourisalpha(c) == (up | lo), "ourisalpha holds exactly for the letters");
    check(mytolower(c) == if up { c ^ 0x20 } else { c }, "mytolower changes exactly A-Z, by 0x20");
    check(mytoupper(c) == if lo { c ^ 0x20 } else { c }, "mytoupper changes exactly a-z, by 0x20");
    observe(mytolower(c) as u64, "lower");
    observe(mytoupper(c) as u64, "upper");
    if up { cover("upper case letter") } else if lo { cover("lower case letter") } else { cover("not a letter") }
}
