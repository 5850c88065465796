//@ module ng
use crate::verif::*;
use std::convert::TryFrom;
extern "Rust" {
    fn vh_x_known(rm: &ReportManager<'_>, id: u32) -> Option<(bool, u32)>;
}
/// params: literals, how (see Lit::arbitrary), whether the shortcut is on, the lengths; how 9: fixed letters, caseless or not as one.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c11_summary() {
    let (m, how, shortcut) = (param(0) as usize, param(1), param(2) != 0);
    let cc = CompileContext::new(sym_bool("streaming"), false, &crate::Grey { shortcut_literals: shortcut, ..crate::Grey::default() });
    let mut ng = Ng::new(&cc, m, 0);
    check(ng.min_width == Depth::infinity(), "the minimum match width is infinite with nothing registered");
    check(!ng.rose.has_som, "start of match is off with nothing registered");
    let mut seen = [(0u32, false, false); 6]; // id, SINGLEMATCH, registered
    let (mut min, mut som_on) = (usize::max_value(), false);
    for i in 0..m {
        let n = param(3 + i as u64) as usize;
        let lit = if how == 9 { Lit::arbitrary(n, 0, 2) } else { Lit::arbitrary(0, n, how) };
        let (id, left) = (sym_u32("id"), sym_bool("start of match"));
        assume(id < 10);
        let high = sym_bool("singlematch") & !left; // both at once are refused earlier
        let (mut known, mut first) = (false, false);
        for s in &seen[..i] { let hit = s.2 & (s.0 == id) & !known; first |= hit & s.1; known |= hit }
        let mixed = lit.mixed();
        let declined = mixed | !shortcut;
        let clash = !declined & known & (first != high);
        let r = unsafe { ng.as_mut().get_unchecked_mut().add_literal(&lit.make(), i as u32, id, high, if left { SomType::Left } else { SomType::None }, sym_bool("quiet")) };
        let ok = match r { Ok(b) => { check(!clash, "a SINGLEMATCH clash is refused"); check(b == !declined, "declined exactly if of mixed sensitivity or switched off"); b } Err(e) => { check(clash, "only a SINGLEMATCH clash is refused"); std::mem::forget(e); false } };
        if ok { cover("registered") } else if clash { cover("refused") } else { cover("declined") }
        let reg = !declined & !clash;
        min = pick(reg & (n < min), n, min);
        som_on |= reg & left;
        seen[i] = (id, high, reg);
        check(ng.rose.has_som == som_on, "start of match is on exactly if a registered expression asked for it");
        let want = if min == usize::max_value() { Some(Depth::infinity()) } else { Depth::try_from(min).ok() };
        check(want == Some(ng.min_width), "the minimum match width is the length of the shortest literal registered");
        observe(som_on as u64, "start of match");
    }
    let probe = sym_u32("any id");
    assume(probe < 11);
    let mut known = false;
    for s in &seen[..m] { known |= s.2 & (s.0 == probe) }
    check(unsafe { vh_x_known(&ng.rm, probe) }.is_some() == known, "exactly the match IDs of registered literals are known");
}
