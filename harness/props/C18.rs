//@ module ng_builder
#[no_mangle]
pub fn vh_x_flags(b: &mut NfaBuilder, v: NfaVertex, f: PosFlags) { b.graph[v].assert_flags = f }
//@ module compiler
#[no_mangle]
pub fn vh_x_builder() -> crate::nfagraph::NfaBuilder {
    let pe = match ParsedExpression::new(0, "", Flags::empty(), 0) { Ok(p) => p, Err(_) => panic!("the empty expression parses") };
    make_nfa_builder(&pe)
}
//@ module build_state
use crate::verif::*;
extern "Rust" {
    fn vh_x_flags(b: &mut NfaBuilder, v: NfaVertex, f: PosFlags);
    fn vh_x_builder() -> NfaBuilder;
}
fn flags(name: &str) -> PosFlags {
    let x = sym_u8(name);
    let mut f = PosFlags::empty();
    for (k, g) in [PosFlags::NOFLOAT, PosFlags::MUST_FLOAT, PosFlags::MULTILINE_START].iter().enumerate() { f = PosFlags::from_bits_truncate(f.bits() | g.bits() * ((x >> k) & 1) as u32) }
    f
}
/// params: sources, targets, then the position of each: 0 start, 1 floating start, 2 accept, 3 end-of-data, 4 and 5 plain, 6 empty, 9 any of these.
/// The flags of all, and the assert flags of the plain positions and starts, are arbitrary.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c18_wiring() {
    let (ns, nt) = (param(0) as usize, param(1) as usize);
    let mut builder = unsafe { vh_x_builder() };
    let p = [builder.make_position(), builder.make_position()];
    let place = [builder.get_start(), builder.get_start_dot_star(), builder.get_accept(), builder.get_accept_eod(), p[0], p[1], GlushkovBuildState::pos_epsilon()];
    let mut asserts = [PosFlags::empty(); 7];
    for k in [0usize, 1, 4, 5].iter() {
        asserts[*k] = flags("assert");
        unsafe { vh_x_flags(&mut builder, place[*k], asserts[*k]) }
    }
    let before = builder.num_vertices();
    let mut kinds = [0usize; 8];
    let mut list = [PositionInfo::from(p[0]); 8];
    let mut accepts = 0;
    for i in 0..ns + nt {
        let mut k = param(2 + i as u64) as usize;
        if k == 9 { let x = sym_u8("position"); assume(x < 7); k = split(x as usize) }
        if i < ns { if k == 6 { return } } else if k == 2 { accepts += 1 }
        kinds[i] = k;
        list[i] = PositionInfo { pos: place[k], flags: flags("flags") };
    }
    if accepts > 1 { return }
    let mut bs = make_glushkov_build_state(&mut builder);
    check(bs.successors.get(&place[0]).map_or(0, |s| s.len()) == 1 && bs.successors.get(&place[0]).map_or(false, |s| s.contains(&place[1].into())), "the start leads to the floating start");
    check(bs.successors.get(&place[1]).map_or(0, |s| s.len()) == 1 && bs.successors.get(&place[1]).map_or(false, |s| s.contains(&place[1].into())), "the floating start leads to itself");
    bs.connect_regions(&list[..ns], &list[ns..ns + nt]);
    let total = bs.get_builder().num_vertices();
    let mut fresh = 0usize;
    // per source position: what its successors must be (several sources may be the same position)
    let mut want = [([PositionInfo::from(p[0]); 10], [false; 10], 0usize); 7];
    for k in 0..2 { want[k].0[0] = place[1].into(); want[k].1[0] = true; want[k].2 = 1 }
    for s in 0..ns {
        let from = kinds[s];
        let nofloat_from = list[s].flags.contains(PosFlags::NOFLOAT);
        for t in ns..ns + nt {
            let (to, f) = (kinds[t], list[t].flags);
            let (nofloat, must) = (f.contains(PosFlags::NOFLOAT), f.contains(PosFlags::MUST_FLOAT));
            let drop = match from { 1 => nofloat | nofloat_from, 0 => ((to == 6) & !nofloat) | (nofloat & must), _ => false } | (asserts[from].contains(PosFlags::MULTILINE_START) & (to == 3));
            let w = &mut want[from];
            if to == 2 {
                // replaced by a vertex made for this edge
                if drop { continue }
                w.0[w.2] = NfaVertex::new(before + fresh).into();
                fresh += 1;
                w.1[w.2] = true;
            } else {
                w.0[w.2] = PositionInfo { pos: place[to], flags: f };
                w.1[w.2] = !drop;
            }
            w.2 += 1;
        }
    }
    check(total == before + fresh, "one vertex is made for every edge to plain accept");
    observe(total as u64, "vertices");
    for k in 0..6 {
        let got = bs.successors.get(&place[k]);
        let (items, live, n) = &want[k];
        let mut distinct = 0usize;
        for i in 0..*n {
            let mut dup = false;
            for j in 0..i { dup |= live[j] & (items[j].pos == items[i].pos) & (items[j].flags.bits() == items[i].flags.bits()) }
            distinct += (live[i] & !dup) as usize;
            let has = got.map_or(false, |g| g.contains(&items[i]));
            if live[i] { check(has, "every connection asked for and allowed is recorded") }
        }
        check(got.map_or(0, |g| g.len()) == distinct, "no other connection is recorded");
        if distinct == 0 && *n > 0 { cover("nothing allowed") } else if distinct > 1 { cover("connected") }
    }
    if fresh > 0 { cover("accept replaced") }
}
