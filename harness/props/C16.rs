//@ module report_manager
use crate::verif::*;
#[no_mangle]
pub extern "C-unwind" fn vh_h_c16_keys() {
    let n = param(0) as usize;
    let grey = Grey::default();
    let mut rm = ReportManager::new(&grey);
    let mut vals = [0u32; 320];
    let mut m = 0usize;
    // `pre` fixed indices first, in an order of their own
    for i in 0..param(1) as usize { let x = if param(1) > 28 { ((i as u32 * 7) % 311).wrapping_mul(0x0100_0193) } else { (i as u32 * 7) % 29 + (i as u32 % 2) * 0xffff_ffe0 }; check(rm.get_exhaustible_key(x) as usize == m, "a new index gets the next key"); vals[m] = x; m += 1 }
    for _ in 0..n {
        let x = sym_u32("index");
        let k = rm.get_exhaustible_key(x) as usize;
        let mut known = m;
        for j in (0..m).rev() { if vals[j] == x { known = j } }
        check(k == known, "an index keeps its key, a new one gets the next");
        observe(k as u64, "key");
        if known == m { vals[m] = x; m += 1; cover("new") } else { cover("again") }
    }
    for j in 0..m { check(rm.get_exhaustible_key(vals[j]) as usize == j, "an index keeps its key") }
}
