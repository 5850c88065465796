//@ module compiler
use crate::verif::*;
extern "Rust" {
    fn vh_x_vertices(g: &NgHolder) -> (usize, [usize; 4]);
    fn vh_x_reach(g: &NgHolder, v: usize) -> Raw;
}
/// param 5: flags; param 6: 1 if the text holds no verb.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c17_graph() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let bits = text_flags(5);
    let (index, id) = (sym_u64("index") as usize, sym_u32("id"));
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let mut pe = match ParsedExpression::new(index, s, Flags::from_bits_truncate(bits), id) { Ok(p) => p, Err(e) => { std::mem::forget(e); cover("rejected"); return } };
    let (utf8, prefilter) = (pe.expr.utf8, pe.expr.prefilter);
    let built = build_graph(&mut pe);
    let start = if param(6) == 1 { 0 } else { split(want(&b[..n], 0).start) };
    let caseless = bits & 1 != 0;
    let (count, special) = unsafe { vh_x_vertices(&built.g) };
    let is_special = |v: usize| special.iter().any(|x| *x == v);
    for i in 0..4 { for j in 0..i { check(special[i] != special[j], "the special vertices are distinct") } }
    let mut v = 0usize;
    let mut literals = 0usize;
    for c in &b[start..n] {
        if *c == b'(' || *c == b')' || *c == b'|' { continue }
        literals += 1;
        while v < count && is_special(v) { v += 1 }
        check(v < count, "every literal has a vertex");
        let r = unsafe { vh_x_reach(&built.g, v) };
        let low = *c | 0x20;
        let twin = caseless & (low >= b'a') & (low <= b'z');
        let mut d = 0u8;
        for i in 0..32u8 {
            let one = (((*c >> 3) == i) as u8) << (*c & 7);
            let two = ((((*c ^ 0x20) >> 3) == i) & twin) as u8;
            d |= r[i as usize] ^ (one | two << (*c & 7));
        }
        check(d == 0, "the vertices are the literals in order, each with its class");
        v += 1;
    }
    check(count == 4 + literals, "there are no other vertices");
    observe(count as u64, "vertices");
    for (k, s) in special.iter().enumerate() {
        let r = unsafe { vh_x_reach(&built.g, *s) };
        let all = if k < 2 { 0xff } else { 0 };
        check(r.iter().all(|x| *x == all), "the starts are reachable on every byte, the accepts on none");
    }
    let e = &built.expr;
    check((e.index == index) & (e.report == id) & (e.highlander == (bits & 8 != 0)) & (e.quiet == (bits & 0x400 != 0)) & (e.prefilter == prefilter) & (e.utf8 == utf8) & !e.allow_vacuous & (e.som == SomType::None), "the properties of the expression are carried over");
    check((pe.expr.index == index) & (pe.expr.report == id), "the expression itself keeps its properties");
    if literals > 0 { cover("literals") } else { cover("no literals") }
}
