//@ module ue2string
use crate::verif::*;
/// `prefix` concrete characters, then `n` arbitrary ones.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c33_literal() {
    let (prefix, n) = (param(0) as usize, param(1) as usize);
    let mut lit = Ue2Literal::default();
    let mut want = [(0u8, false); 320];
    let mut t = 0usize;
    check(lit.is_empty(), "a new literal is empty");
    for i in 0..prefix { let (c, nc) = (b"aB-z0"[i % 5], i % 3 == param(2) as usize); lit.push(c, nc); want[t] = (if nc { c.to_ascii_uppercase() } else { c }, nc); t += 1 }
    for _ in 0..n {
        let (c, nc) = (sym_u8("c"), sym_bool("nocase"));
        let up = if (c >= b'a') & (c <= b'z') & nc { c ^ 0x20 } else { c };
        lit.push(c, nc);
        want[t] = (up, nc);
        t += 1;
    }
    check(lit.len() == t, "the length is the number of characters pushed");
    check(lit.is_empty() == (t == 0), "empty exactly if nothing was pushed");
    let (mut any, mut cs, mut nc) = (false, false, false);
    let mut k = 0usize;
    for e in &lit {
        check(k < t, "iterating yields no more than was pushed");
        check(e.c == want[k].0, "iterating yields the characters in order");
        check(e.nocase == want[k].1, "iterating yields the caseless marks in order");
        k += 1;
    }
    check(k == t, "iterating yields everything pushed");
    for w in &want[..t] {
        any |= w.1;
        let low = w.0 | 0x20;
        let letter = (low >= b'a') & (low <= b'z');
        cs |= letter & !w.1;
        nc |= letter & w.1;
    }
    check(lit.any_nocase() == any, "any_nocase means a caseless character was pushed");
    let mixed = mixed_sensitivity(&lit);
    check(mixed == (cs & nc), "mixed sensitivity means a caseless and a case-sensitive letter");
    observe(mixed as u64, "mixed");
    if mixed { cover("mixed") } else { cover("not mixed") }
    let m2 = mixed_sensitivity(lit.iter().skip(1));
    let (mut cs, mut nc) = (false, false);
    for w in want[..t].iter().skip(1) { let low = w.0 | 0x20; let letter = (low >= b'a') & (low <= b'z'); cs |= letter & !w.1; nc |= letter & w.1 }
    check(m2 == (cs & nc), "mixed sensitivity of a part of a literal");
}
