//@ module util
use crate::verif::*;
#[no_mangle]
pub extern "C-unwind" fn vh_h_c30_masks() {
    let r = param_set(0, "set");
    let (and, cmp) = super::charreach::make_and_cmp_mask(&to_cr(r));
    let d = sym_u8("d");
    check(!has(&r, d) | (d & and == cmp), "every member passes the and/cmp check");
    let (mut all, mut any) = (255u8, 0u8);
    for c in 0..256usize { let on = 0u8.wrapping_sub((r[c / 8] >> (c % 8)) & 1); all &= c as u8 | !on; any |= c as u8 & on }
    let empty = !to_cr(r).any();
    check(empty | (and == !(all ^ any)), "the and-mask has a bit exactly where all members agree");
    check(empty | (cmp & !and == 0), "the compare value has no bit outside the and-mask");
    observe(and as u64, "and");
    observe(cmp as u64, "cmp");
    cover("masks");
}
