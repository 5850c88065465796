//@ module report_manager
use crate::verif::*;
fn report(x: u64) -> Report { let mut r = crate::util::make_e_callback(0, 0, None, false); r.min_length = x; r }
/// param 0: number of requests; param 1: the limit is that many reports, or arbitrary if 99; param 2: fixed requests before them.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c15_ids() {
    let n = param(0) as usize;
    let limit = if param(1) == 99 { sym_u64("limit") as usize } else { param(1) as usize };
    let grey = Grey { limit_report_count: limit, ..Grey::default() };
    let mut rm = ReportManager::new(&grey);
    let mut vals = [0u64; 320];
    let mut m = 0usize;
    let pre = param(2) as usize;
    for i in 0..pre {
        let x = (i as u64 * 77) << (i % 50);
        let mut known = m;
        for j in (0..m).rev() { if vals[j] == x { known = j } }
        match rm.get_internal_id(&report(x)) { Ok(id) => { check(id as usize == known, "equal reports get the same number, new ones the next"); if known == m { vals[m] = x; m += 1 } } Err(e) => { check(known == m && m >= limit, "only a new report beyond the limit is refused"); std::mem::forget(e); return } }
    }
    for _ in 0..n {
        let x = sym_u64("report");
        let r = rm.get_internal_id(&report(x));
        let mut known = m;
        for j in (0..m).rev() { if vals[j] == x { known = j } }
        match r {
            Ok(id) => {
                check(id as usize == known, "equal reports get the same number, new ones the next");
                if known == m { check(m < limit, "no report beyond the limit is numbered"); vals[m] = x; m += 1; cover("new") } else { cover("again") }
                observe(id as u64, "number");
            }
            Err(e) => { check(known == m && m >= limit, "only a new report beyond the limit is refused"); cover("refused"); std::mem::forget(e) }
        }
        check(rm.num_reports() == m, "the reports are the distinct ones asked for");
    }
    for j in 0..m {
        check(rm.get_report(j as u32).min_length == vals[j], "looking up a number gives its report");
        match rm.get_internal_id(&report(vals[j])) { Ok(i) => check(i as usize == j, "asking again gives the same number"), Err(_) => check(false, "a known report is never refused") }
    }
}
