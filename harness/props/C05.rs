//@ module lib
fn starts(m: &str, s: &str) -> bool { m.as_bytes().starts_with(s.as_bytes()) }
/// Any limits; params: expressions, then the length of each in bytes (+ 1000: it starts with a two-byte character).
#[no_mangle]
pub extern "C-unwind" fn vh_h_c05_compile() {
    let m = param(0) as usize;
    let (count, length, reports) = (sym_u64("pattern count") as usize, sym_u64("pattern length") as usize, sym_u64("report count") as usize);
    let g = Grey { limit_pattern_count: count, limit_pattern_length: length, limit_report_count: reports, ..Grey::default() };
    let b = [b'a'; 128];
    let mut accents = [b'a'; 128];
    accents[0] = 0xc3;
    accents[1] = 0xa9;
    let mut foreign = false;
    let mut e = [""; 4];
    let (mut too_long, mut literal) = (false, false);
    let mut stop = false;
    for i in 0..m {
        let (n, accent) = (param(1 + i as u64) as usize % 1000, param(1 + i as u64) >= 1000);
        e[i] = match std::str::from_utf8(if accent { &accents[..n] } else { &b[..n] }) { Ok(s) => s, Err(_) => "" };
        let long = !stop & (n > length);
        too_long |= long;
        foreign |= accent & !stop & !long;
        stop |= accent;
        let lit = !stop & !long & (n > 0);
        literal |= lit & (reports == 0); // one report serves all
        stop |= long | (lit & (reports == 0));
    }
    let flags = [Flags::empty(), Flags::empty(), Flags::empty(), Flags::empty()];
    let ids = [1u32, 2, 3, 4];
    let r = compile_multi_int(&e[..m], &flags[..m], &ids[..m], &Mode::Block, &g);
    let many = m > count;
    check(r.is_err() == (many | too_long | literal | foreign), "rejected exactly if a limit is exceeded");
    observe(r.is_ok() as u64, "accepted");
    match r {
        Ok(d) => { cover("within"); std::mem::forget(d) }
        Err(e) => {
            let t = &e.reason;
            if many { check(starts(t, "Number of patterns too large"), "too many expressions are named as the reason"); cover("too many") }
            else if starts(t, "Pattern length exceeds limit") { check(too_long, "an expression is too long"); cover("too long") }
            else if starts(t, "Unsupported non-ASCII") { check(foreign & !many, "the characters are at fault"); cover("non-ASCII within the limit") }
            else { check(literal & starts(t, "Resource limit exceeded"), "one report too many"); cover("too many reports") }
            std::mem::forget(e);
        }
    }
}
/// The default limits, at the boundary; params: length of the expression, 1 to end it with a two-byte character. Its second byte is arbitrary.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c05_default() {
    let n = param(0) as usize;
    let mut v: Vec<u8> = Vec::with_capacity(n);
    for _ in 0..n { v.push(b'a') }
    v[0] = b')'; // rejected at once if not for its length
    v[1] = sym_u8("byte");
    assume(v[1] < 0x80);
    if param(1) == 1 { v[n - 2] = 0xc3; v[n - 1] = 0xa9 }
    let s = match std::str::from_utf8(&v) { Ok(s) => s, Err(_) => return };
    match compile(s, Flags::from_bits_truncate(sym_u16("flags") & !0x500), &Mode::Block) {
        Ok(d) => { check(false, "an unmatched parenthesis is rejected"); std::mem::forget(d) }
        Err(e) => {
            let long = starts(&e.reason, "Pattern length exceeds limit");
            check(long == (n > 16_000), "too long exactly if longer than 16,000 bytes");
            observe(long as u64, "too long");
            if long { cover("longer than the default") } else { cover("not longer than the default") }
            std::mem::forget(e);
        }
    }
    let g = Grey::default();
    check(g.limit_pattern_count == 8_000_000 && g.limit_pattern_length == 16_000 && g.limit_report_count == 32_000_000, "the default limits");
}
//@ module report_manager
use crate::verif::*;
/// `n` different reports with any limit.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c05_reports() {
    let (n, limit) = (param(0) as usize, sym_u64("limit") as usize);
    let grey = Grey { limit_report_count: limit, ..Grey::default() };
    let mut rm = ReportManager::new(&grey);
    for i in 0..n {
        let mut r = crate::util::make_e_callback(0, 0, None, false);
        r.min_length = i as u64 * 3;
        let got = rm.get_internal_id(&r);
        check(got.is_err() == (i >= limit), "a further report is refused exactly at the limit");
        observe(got.is_ok() as u64, "accepted");
        if let Err(e) = got { std::mem::forget(e); cover("report refused") } else { cover("report accepted") }
        if i > 0 { r.min_length = 0; let again = rm.get_internal_id(&r); check(again.is_err() == (limit == 0), "a report that is known is never refused"); std::mem::forget(again) }
    }
}
