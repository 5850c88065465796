//@ module report_manager
use crate::verif::*;
/// param 0: how many expressions register; param 1: 0 arbitrary match IDs without a clash, 1 any below 10, 2 out of four; param 2: how many with fixed IDs have registered before.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c14_clash() {
    let n = param(0) as usize;
    let grey = Grey::default();
    let mut rm = ReportManager::new(&grey);
    let mut seen = [(0u32, false, 0u32, false); 320]; // id, SINGLEMATCH, index, registered
    let mut all = true;
    check(rm.global_exhaust, "with nothing registered the set is exhaustible");
    let pre = param(2) as usize;
    for i in 0..pre {
        let (id, h) = (i as u32 * 3, i % 5 != 4);
        let r = rm.register_ext_report(id, ExternalReportInfo::new(h, i as u32));
        check(r.is_ok(), "a new match ID registers");
        std::mem::forget(r);
        all &= h;
        seen[i] = (id, h, i as u32, true);
    }
    for i in pre..pre + n {
        let (mut id, h, x) = (sym_u32("id"), sym_bool("singlematch"), sym_u32("index"));
        match param(1) {
            0 => (),
            1 => { assume(id < 10); assume(x < 10) }
            3 => { assume(id < 6); assume(x < 10); id = [0, 3, 762, 765, 768, 895][split(id as usize)] }
            _ => { assume(id < 4); assume(x < 10); id = [0, 1, 0x8000_0000, 0xffff_ffff][split(id as usize)] }
        }
        let (mut known, mut first_h) = (false, false);
        for s in &seen[..i] { let hit = s.3 & (s.0 == id) & !known; first_h |= hit & s.1; known |= hit }
        let clash = known & (first_h != h);
        if param(1) == 0 { assume(!clash) }
        let r = rm.register_ext_report(id, ExternalReportInfo::new(h, x));
        check(r.is_err() == clash, "registering fails exactly when the match ID was registered with the opposite SINGLEMATCH");
        observe(r.is_err() as u64, "clash");
        if let Err(e) = r { std::mem::forget(e); cover("clash") } else { cover("registered") }
        all &= clash | h;
        seen[i] = (id, h, x, !clash);
        check(rm.global_exhaust == all, "the set is exhaustible exactly while all registered expressions are SINGLEMATCH");
    }
    for s in &seen[..pre + n] { if s.3 { check(rm.external_id_map.get(&s.0).is_some(), "the match ID of a registered expression is known") } }
}
fn number_at(m: &[u8], from: usize) -> (Option<u64>, usize) {
    let mut i = from;
    while i < m.len() && !m[i].is_ascii_digit() { i += 1 }
    if i == m.len() { return (None, i) }
    let mut v = 0u64;
    while i < m.len() && m[i].is_ascii_digit() { v = v * 10 + (m[i] - b'0') as u64; i += 1 }
    (Some(v), i)
}
fn holds(m: &[u8], s: &str) -> bool { m.windows(s.len()).any(|w| w == s.as_bytes()) }
/// The numbers are `base` plus something below `span`.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c14_text() {
    let (base, span) = (param(0), param(1));
    let mut pick = |name: &str| { let v = sym_u32(name); assume((v as u64) < span); (base + split(v as usize) as u64) as u32 };
    let (id, h, i1, i2, other) = (pick("id"), split(sym_bool("singlematch") as usize) == 1, pick("first"), pick("second"), pick("other id"));
    let grey = Grey::default();
    let mut rm = ReportManager::new(&grey);
    if other != id { std::mem::forget(rm.register_ext_report(other, ExternalReportInfo::new(!h, i2))); }
    std::mem::forget(rm.register_ext_report(id, ExternalReportInfo::new(h, i1)));
    std::mem::forget(rm.register_ext_report(id, ExternalReportInfo::new(h, i2)));
    let e = match rm.register_ext_report(id, ExternalReportInfo::new(!h, i2)) { Err(e) => e, Ok(()) => { check(false, "the opposite SINGLEMATCH is refused"); return } };
    let m = e.reason.as_bytes();
    let (a, p) = number_at(m, 0);
    let (b, p) = number_at(m, p);
    let (c, p) = number_at(m, p);
    check(a == Some(i2 as u64), "the error names the offending expression");
    check(b == Some(id as u64), "the error names the match ID");
    check(c == Some(i1 as u64), "the error names the first expression with that match ID");
    check(number_at(m, p).0.is_none(), "the error names nothing else");
    let own_not = holds(m, "did not specify SINGLEMATCH");
    let other_not = m.ends_with(b"did not.");
    check(own_not == h, "the error says whether the offending expression specified SINGLEMATCH");
    check(other_not == !h, "the error says whether the first expression did");
    observe(m.len() as u64, "length");
    cover(if h { "first did" } else { "first did not" });
    std::mem::forget(e);
}
