//@ module parser
/// param 5: the call of a pre hook that fails, 0 for none.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c38_walk() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let fail_at = param(5) as u32;
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let mut mode = ParseMode::default();
    let tree = match parse(s, &mut mode) { Ok(t) => t, Err(e) => { std::mem::forget(e); return } };
    let mut t = Trace::new(fail_at);
    let r = walk_component(&mut t, &tree);
    let x = expected_walk(&b[..n], if param(6) == 1 { 0 } else { text_start(&b[..n]) });
    let (mut pres, mut end) = (0u32, x.ev.len());
    for (i, e) in x.ev.iter().enumerate() {
        if e.0 == b'[' || e.0 == b'{' || e.0 == b'c' { pres += 1; if pres == fail_at { end = i + 1; break } }
    }
    if end < x.ev.len() || (fail_at != 0 && pres == fail_at) {
        check(r == Err(fail_at), "the error of a failing hook is returned");
        cover("failed");
    } else {
        check(r.is_ok(), "a walk whose hooks do not fail succeeds");
        cover("walked");
    }
    observe(end as u64, "calls");
    check(t.n.get() == end, "every hook is called exactly once per node, none after a failure");
    for i in 0..end { check(t.ev[i].get().0 == x.ev[i].0, "hooks are called properly nested and in order") }
    std::mem::forget(tree);
}
