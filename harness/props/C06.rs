//@ module parser
#[no_mangle]
pub extern "C-unwind" fn vh_h_c06_tree() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let caseless = param(5) != 0;
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let mut mode = ParseMode { caseless, ..ParseMode::default() };
    let tree = match parse(s, &mut mode) { Ok(t) => t, Err(e) => { std::mem::forget(e); cover("rejected"); return } };
    let mut t = Trace::new(0);
    check(walk_component(&mut t, &tree).is_ok(), "a walk whose hooks do not fail succeeds");
    let start = if param(6) == 1 { 0 } else { text_start(&b[..n]) };
    let x = expected_walk(&b[..n], start);
    let same = t.n.get() == x.ev.len();
    observe(x.ev.len() as u64, "nodes");
    check(same, "the tree has the nodes the text asks for");
    for i in 0..x.ev.len() {
        check(t.ev[i].get().0 == x.ev[i].0, "groups, alternations and literals are nested and ordered as in the text");
        check(t.ev[i].get().1 == x.ev[i].1, "groups are numbered in order, branches are not captured");
    }
    check(t.raw.len() == x.at.len(), "every literal is in the tree once");
    for (r, at) in t.raw.iter().zip(&x.at) { check(is_class(r, b[*at], caseless), "the literals are in the order of the text") }
    if x.ev.iter().any(|e| e.0 == b'{') { cover("alternation") } else { cover("no alternation") }
    if x.ev.iter().any(|e| e.1 > 1) { cover("group") }
    std::mem::forget(tree);
}
