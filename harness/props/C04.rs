//@ module lib
fn ends(m: &[u8], s: &str, i: usize) -> bool {
    let t = s.as_bytes();
    m.len() > t.len() && m[m.len() - 1] == b'0' + i as u8 && &m[m.len() - 1 - t.len()..m.len() - 1] == t
}
fn has_in(m: &[u8]) -> bool { m.windows(15).any(|w| w == b" in expression ") }
/// params: expressions, flags given, IDs given, flags (65535 any), then bytes of each expression (n + 100: out of ( ) | a).
#[no_mangle]
pub extern "C-unwind" fn vh_h_c04_list() {
    let (m, nf, ni) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let mut t = [[0u8; 8]; 4];
    let (mut flags, mut bits, mut ids) = ([Flags::empty(), Flags::empty(), Flags::empty(), Flags::empty(), Flags::empty()], [0u16; 5], [0u32; 5]);
    let mut e = [""; 4];
    for i in 0..m {
        let n = param(4 + i as u64) as usize;
        fill(&mut t[i][..n % 100], "text");
        for c in &t[i][..n % 100] { assume(if n >= 100 { (*c == b'(') | (*c == b')') | (*c == b'|') | (*c == b'a') } else { *c < 0x80 }) }
    }
    for i in 0..m { e[i] = match std::str::from_utf8(&t[i][..param(4 + i as u64) as usize % 100]) { Ok(s) => s, Err(_) => return } }
    for i in 0..5 {
        if i < nf { bits[i] = if param(3) == 65535 { sym_u16("flags") } else if param(3) == 65534 { sym_u16("flags") & 0x508 } else { param(3) as u16 }; flags[i] = Flags::from_bits_truncate(bits[i]) }
        if i < ni { ids[i] = sym_u32("id"); assume(ids[i] < 10) }
    }
    let r = compile_multi(&e[..m], &flags[..nf], &ids[..ni], &Mode::Block);
    if m == 0 || nf != m || ni != m {
        check(r.is_err(), "an empty list, or lists of different lengths, are refused");
        cover("lists");
        if let Err(x) = r { let s = x.to_string(); check(!has_in(s.as_bytes()), "no expression is at fault"); std::mem::forget(s) }
        return;
    }
    // what each does on its own, and which match IDs clash
    let (mut bad, mut first) = (false, 0usize);
    let mut seen = [(0u32, false, false); 4];
    for i in 0..m {
        let b = &t[i][..e[i].len()];
        let w = want(b, bits[i]);
        let mut lit = b.len() > w.start;
        let mut any = false;
        for (k, c) in b.iter().enumerate() { if k >= pick(w.kind == 0, w.start, 0) { lit &= *c != b'|'; any |= (*c != b'(') & (*c != b')') } }
        lit &= any & (w.kind == 0);
        let high = bits[i] & 8 != 0;
        let (mut known, mut h) = (false, false);
        for s in &seen[..i] { let hit = s.2 & (s.0 == ids[i]) & !known; h |= hit & s.1; known |= hit }
        let clash = lit & known & (h != high);
        let fault = (w.kind != 0) | clash;
        first = pick(fault & !bad, i, first);
        bad |= fault;
        seen[i] = (ids[i], high, lit & !bad);
    }
    check(r.is_err() == bad, "the list compiles exactly if every expression does");
    observe(r.is_ok() as u64, "accepted");
    match r {
        Ok(d) => { cover("compiled"); std::mem::forget(d) }
        Err(x) => {
            let s = x.to_string();
            check(ends(s.as_bytes(), " in expression ", split(first)), "the error names the first failing expression");
            observe(s.len() as u64, "length");
            cover(if first == 0 { "first" } else { "later" });
            std::mem::forget(s);
            std::mem::forget(x);
        }
    }
}
/// A long list whose expressions are fixed but for one; params: expressions, flags of the odd one (65535 any), bytes of its text (out of ( ) | a). Match IDs are all different.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c04_long() {
    let (m, n) = (param(0) as usize, param(2) as usize);
    let bits = if param(1) == 65535 { sym_u16("flags") } else { param(1) as u16 };
    let x = sym_u16("position") as usize;
    assume(x < 8);
    let at = [0, 1, 9, 10, 99, 127, 255, 256][split(x)];
    let at = if at < m { at } else { m - 1 };
    let mut t = [0u8; 8];
    fill(&mut t[..n], "text");
    for c in &t[..n] { assume((*c == b'(') | (*c == b')') | (*c == b'|') | (*c == b'a')) }
    let s = match std::str::from_utf8(&t[..n]) { Ok(s) => s, Err(_) => return };
    let mut e = vec!["ab"; m];
    let mut flags = vec![Flags::empty(); m];
    let mut ids = vec![0u32; m];
    for i in 0..m { ids[i] = (i as u32).wrapping_mul(0x0100_0193) }
    e[at] = s;
    flags[at] = Flags::from_bits_truncate(bits);
    let w = want(&t[..n], bits);
    let r = compile_multi(&e, &flags, &ids, &Mode::Block);
    check(r.is_err() == (w.kind != 0), "the list compiles exactly if every expression does");
    observe(r.is_ok() as u64, "accepted");
    match r {
        Ok(d) => { cover("long list compiled"); std::mem::forget(d) }
        Err(x) => {
            let s = x.to_string();
            let want = format!(" in expression {}", at);
            check(s.as_bytes().ends_with(want.as_bytes()), "the error names the first failing expression");
            cover("long list refused");
            std::mem::forget((s, x, want));
        }
    }
    std::mem::forget((e, flags, ids));
}
/// One expression is a list of one with match ID 0; params: the text, flags.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c04_single() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let f = Flags::from_bits_truncate(text_flags(5));
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let one = compile(s, f, &Mode::Block);
    let list = compile_multi(&[s], &[f], &[0], &Mode::Block);
    check(one.is_ok() == list.is_ok(), "compiling one expression is compiling a list of one");
    observe(one.is_ok() as u64, "accepted");
    if let (Err(a), Err(b)) = (&one, &list) {
        let (a, b) = (a.to_string(), b.to_string());
        check(a == b, "with the same error");
        check(ends(a.as_bytes(), " in expression ", 0), "which names the only expression");
        cover("same error");
        std::mem::forget((a, b));
    } else { cover("same database") }
    std::mem::forget((one, list));
}
