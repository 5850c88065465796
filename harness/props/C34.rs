//@ module ue2string
use crate::verif::*;
struct L { lit: Ue2Literal, c: [u8; 320], m: [bool; 320], n: usize }
/// `prefix` fixed characters then `n` arbitrary ones.
fn make(prefix: usize, n: usize) -> L {
    let mut l = L { lit: Ue2Literal::default(), c: [0; 320], m: [false; 320], n: prefix + n };
    for i in 0..prefix { l.lit.push(b'A' + (i % 7) as u8, i % 2 == 1); l.c[i] = b'A' + (i % 7) as u8; l.m[i] = i % 2 == 1 }
    for i in prefix..prefix + n {
        let (c, nc) = (sym_u8("c"), sym_bool("nocase"));
        l.lit.push(c, nc);
        l.c[i] = if (c >= b'a') & (c <= b'z') & nc { c ^ 0x20 } else { c };
        l.m[i] = nc;
    }
    l
}
/// -1, 0, 1 as the characters of `a` sort before, like or after those of `b`.
fn chars(a: &L, b: &L) -> i8 {
    let mut r = if a.n < b.n { -1i8 } else if a.n > b.n { 1 } else { 0 };
    let n = a.n.min(b.n);
    for i in (0..n).rev() { r = if a.c[i] < b.c[i] { -1 } else if a.c[i] > b.c[i] { 1 } else { r } }
    r
}
fn marks_equal(a: &L, b: &L) -> bool { let mut r = a.n == b.n; for i in 0..a.n.min(b.n) { r &= a.m[i] == b.m[i] } r }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c34_pair() {
    let p = param(2) as usize;
    let a = make(p, param(0) as usize);
    let b = make(p, param(1) as usize);
    let ch = chars(&a, &b);
    let want = (ch == 0) & marks_equal(&a, &b);
    let eq = a.lit == b.lit;
    check(eq == want, "equal means the same characters and marks");
    check((a.lit != b.lit) == !want, "!= is the negation of ==");
    let c = a.lit.cmp(&b.lit) as i8;
    check((c == 0) == want, "compares equal exactly when equal");
    check((ch == 0) | (c == ch), "the characters are compared first");
    let d = b.lit.cmp(&a.lit) as i8;
    check(c == -d, "the comparison is antisymmetric");
    let p = match a.lit.partial_cmp(&b.lit) { Some(Ordering::Less) => -1i8, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1, None => 5 };
    check(p == c, "partial_cmp agrees with cmp");
    check((a.lit < b.lit) == (c < 0), "< agrees with cmp");
    observe((c + 1) as u64, "cmp");
    if eq { cover("equal") } else { cover("different") }
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c34_transitive() {
    let p = param(3) as usize;
    let a = make(p, param(0) as usize);
    let b = make(p, param(1) as usize);
    let c = make(p, param(2) as usize);
    let (ab, bc, ac) = (a.lit.cmp(&b.lit) as i8, b.lit.cmp(&c.lit) as i8, a.lit.cmp(&c.lit) as i8);
    check(!((ab <= 0) & (bc <= 0)) | (ac <= 0), "the ordering is transitive");
    check(!((ab < 0) & (bc <= 0)) | (ac < 0), "the strict ordering is transitive");
    check(!((ab == 0) & (bc == 0)) | (ac == 0), "equality is transitive");
    cover("triple");
}
