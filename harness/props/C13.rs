//@ module ng_holder
/// A graph with one vertex that raises `report`; bit 0..4 of `edges`: start or floating start into accept or end-of-data accept.
#[no_mangle]
pub fn vh_x_holder(edges: u8, report: Option<ReportId>) -> NgHolder {
    let mut g = NgHolder::new();
    let v = g.add_vertex();
    if let Some(r) = report { g[v].reports.insert(r); let a = if edges & 16 != 0 { g.accept } else { g.accept_eod }; g.inner.add_edge(v, a, NfaGraphEdgeProps::default()); }
    let (s, d, a, e) = (g.start, g.start_ds, g.accept, g.accept_eod);
    for (k, (x, y)) in [(s, a), (s, e), (d, a), (d, e)].iter().enumerate() { if (edges >> k) & 1 == 1 { g.inner.add_edge(*x, *y, NfaGraphEdgeProps::default()); } }
    g
}
//@ module compiler
#[no_mangle]
pub fn vh_x_info(left: bool) -> ExpressionInfo {
    ExpressionInfo { index: 0, report: 0, allow_vacuous: false, highlander: false, utf8: false, prefilter: false, som: if left { SomType::Left } else { SomType::None }, quiet: false }
}
//@ module smallwrite_build
extern "Rust" {
    fn vh_x_holder(edges: u8, report: Option<ReportId>) -> NgHolder;
    fn vh_x_info(left: bool) -> ExpressionInfo;
}
fn size(s: &SmallWriteBuild) -> usize { vh_x_trie_nodes(s, false) + vh_x_trie_nodes(s, true) + vh_x_reports(s, false) + vh_x_reports(s, true) }
/// Whether `s` stores a literal it has not seen: two more nodes, one report.
fn stores(s: &mut SmallWriteBuild) -> bool {
    let before = size(s);
    let mut l = Ue2Literal::default();
    l.push(0xfe, false);
    l.push(0xff, false);
    s.add_literal(&l, 77);
    size(s) != before
}
/// Arbitrary configuration and numbers; params: literals, then the length of each (more than 8: fixed lengths, then the literal limit, all else fixed).
#[no_mangle]
pub extern "C-unwind" fn vh_h_c13_limits() {
    let m = param(0) as usize;
    let (allow, patterns, max_patterns, buffer, max_lits) = if m > 8 { (true, 1, 1, 70, param(1) as usize) } else { (sym_bool("allow"), sym_u64("patterns") as usize, sym_u64("max patterns") as usize, sym_u64("largest buffer") as usize, sym_u64("max literals") as usize) };
    let g = crate::Grey { allow_small_write: allow, small_write_max_patterns: max_patterns, small_write_largest_buffer: buffer, small_write_max_literals: max_lits, ..crate::Grey::default() };
    let cc = CompileContext::new(sym_bool("streaming"), sym_bool("vectored"), &g);
    let mut s = SmallWriteBuild::new(patterns, &cc);
    let mut off = !allow | (patterns > max_patterns);
    check(s.poisoned == off, "disabled from the start exactly if forbidden or if there are too many patterns");
    let (mut count, mut nodes, mut reports) = (0usize, 2usize, 0usize);
    for i in 0..m {
        let n = if m > 8 { 1 + i % 3 } else { param(1 + i as u64) as usize };
        let mut l = Ue2Literal::default();
        for _ in 0..n { l.push(i as u8, false) } // different literals share nothing
        s.add_literal(&l, i as u32);
        let fits = !off & (n <= buffer);
        count += fits as usize;
        let over = fits & (count > max_lits);
        off |= over;
        let stored = fits & !over;
        nodes += pick(stored, n, 0);
        reports += stored as usize;
        check(s.poisoned == off, "disabled exactly once more literals than the limit were added, for good");
        check(vh_x_trie_nodes(&s, false) + vh_x_trie_nodes(&s, true) == nodes, "a literal is stored exactly if the builder is enabled and it fits the largest buffer");
        check(vh_x_reports(&s, false) == reports, "a report is stored exactly if its literal is");
        observe(s.poisoned as u64, "disabled");
        if over { cover("too many literals") }
        if stored { cover("stored") } else { cover("not stored") }
    }
}
/// A trie about to grow past its limit; params: nodes of the first literal, caseless, then arbitrary characters of the next two.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c13_nodes() {
    let (n, nc) = (param(0) as usize, param(1) != 0);
    let g = crate::Grey { small_write_largest_buffer: usize::max_value(), ..crate::Grey::default() };
    let cc = CompileContext::new(false, false, &g);
    let mut s = SmallWriteBuild::new(1, &cc);
    let mut l = Ue2Literal::default();
    for i in 0..n { l.push(b"ab"[i & 1], nc) }
    let mut other = Ue2Literal::default();
    other.push(b'q', !nc);
    other.push(b'r', !nc);
    s.add_literal(&other, 9); // the other trie does not count
    s.add_literal(&l, 1);
    let mut nodes = n + 1;
    let mut off = nodes > 8000;
    check(s.poisoned == off, "disabled exactly once a trie has grown past 8,000 nodes");
    let mut seen = [[0u8; 4]; 2];
    for i in 0..2 {
        let k = param(2 + i as u64) as usize;
        let mut l = Ue2Literal::default();
        for j in 0..k { let c = sym_u8("c"); let low = c | 0x20; let up = if nc & (low >= b'a') & (low <= b'z') { c & !0x20 } else { c }; seen[i][j] = up; l.push(c, nc) }
        let first = |j: usize| if nc { b"AB"[j & 1] } else { b"ab"[j & 1] };
        let (mut with_first, mut with_second) = (true, i == 1);
        let mut more = 0usize;
        for j in 0..k {
            with_first &= seen[i][j] == first(j);
            with_second = with_second & (j < param(2) as usize) & (seen[0][j] == seen[1][j]) & i.eq(&1);
            more += (!with_first & !with_second) as usize;
        }
        s.add_literal(&l, 2 + i as u32);
        nodes += pick(off, 0, more);
        off |= nodes > 8000;
        check(vh_x_trie_nodes(&s, nc) == nodes, "nothing is stored once disabled");
        check(s.poisoned == off, "disabled exactly once a trie has grown past 8,000 nodes");
        observe(s.poisoned as u64, "disabled");
        if off { cover("too many nodes") } else { cover("nodes within the limit") }
    }
    check(vh_x_trie_nodes(&s, !nc) == 3, "each trie is counted on its own");
}
/// An expression that needs the graph.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c13_expression() {
    let (edges, left, with, length, before) = (sym_u8("edges") & 31, sym_bool("start of match"), sym_bool("report"), sym_u64("minimum length"), sym_bool("already disabled"));
    let g = crate::Grey { allow_small_write: !before, ..crate::Grey::default() };
    let cc = CompileContext::new(false, false, &g);
    let mut rm = ReportManager::new(&g);
    let mut plain = crate::util::make_e_callback(0, 0, None, false);
    plain.min_length = 0;
    let mut long = plain.clone();
    long.min_length = length;
    let ids = (rm.get_internal_id(&plain).unwrap_or(0), rm.get_internal_id(&long).unwrap_or(0));
    check(ids.0 == 0, "numbered");
    let mut s = SmallWriteBuild::new(1, &cc);
    s.rm = NonNull::from(&rm);
    let holder = unsafe { vh_x_holder(edges, if with { Some(ids.1) } else { None }) };
    let info = unsafe { vh_x_info(left) };
    let must = before | left | (edges & 15 != 0) | (with & (length > 0));
    {
        let s2 = &mut s;
        // what the builder does with an expression it keeps is not implemented: it panics
        let done = attempt(move || s2.add_expression(&holder, &info));
        if must { check(done.is_some(), "an expression the builder cannot keep disables it without fuss"); }
    }
    check(s.poisoned == must, "disabled exactly if it was, or the expression needs start of match, is vacuous or has a minimum length");
    check(stores(&mut s) == !must, "once disabled nothing is stored");
    observe(s.poisoned as u64, "disabled");
    if must { cover("expression disables") } else { cover("expression kept") }
}
