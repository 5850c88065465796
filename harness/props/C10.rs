//@ module ng
use crate::verif::*;
use std::convert::TryFrom;
extern "Rust" {
    fn vh_x_known(rm: &ReportManager<'_>, id: u32) -> Option<(bool, u32)>;
    fn vh_x_counts(rm: &ReportManager<'_>) -> (usize, usize, usize);
    fn vh_x_trie_nodes(s: &SmallWriteBuild<'_>, nocase: bool) -> usize;
    fn vh_x_trie_end(s: &SmallWriteBuild<'_>, nocase: bool, c: &[u8], r: u32) -> Option<(usize, bool)>;
    fn vh_x_reports(s: &SmallWriteBuild<'_>, nocase: bool) -> usize;
}
/// param 5: flags; param 6: 1 if the text holds no verb; param 7: configuration, bit 0 literals allowed, bit 1 shortcut on.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c10_shortcut() {
    let mut b = [0u8; TEXT];
    let n = text(0, &mut b);
    let bits = text_flags(5) & !0x100;
    let s = match std::str::from_utf8(&b[..n]) { Ok(s) => s, Err(_) => return };
    let (allow, on) = (param(7) & 1 != 0, param(7) & 2 != 0);
    let cc = CompileContext::new(false, false, &crate::Grey { allow_literal: allow, shortcut_literals: on, ..crate::Grey::default() });
    let mut ng = Ng::new(&cc, 1, 0);
    let (id, index) = (sym_u32("id"), 5usize);
    match crate::compiler::add_expression(&mut ng, index, s, crate::Flags::from_bits_truncate(bits), id) { Ok(()) => (), Err(e) => { std::mem::forget(e); cover("rejected"); return } }
    let start = if param(6) == 1 { 0 } else { split(want(&b[..n], 0).start) };
    let (mut lit, mut k, mut bar) = ([0u8; TEXT], 0usize, false);
    for c in &b[start..n] { if *c == b'|' { bar = true } else if *c != b'(' && *c != b')' { lit[k] = *c; k += 1 } }
    let caseless = bits & 1 != 0;
    let mut letters = false;
    for c in &mut lit[..k] {
        let low = *c | 0x20;
        let letter = (low >= b'a') & (low <= b'z');
        letters |= letter;
        *c = if caseless & letter { *c & !0x20 } else { *c };
    }
    let takes = !bar && k > 0 && allow && on;
    let known = unsafe { vh_x_known(&ng.rm, id) };
    let (ids, reports, keys) = unsafe { vh_x_counts(&ng.rm) };
    check(known.is_some() == takes, "a pure literal, and nothing else, takes the shortcut");
    observe(takes as u64, "literal");
    let high = bits & 8 != 0;
    if takes {
        cover("literal");
        check(known.map(|x| x.1) == Some(index as u32), "the literal is registered for its expression");
        check(known.map(|x| x.0) == Some(high), "the literal is registered with its SINGLEMATCH setting");
        check(ids == 1 && reports == 1 && keys == high as usize, "one literal is registered, with one report, and a key if SINGLEMATCH");
        check(Depth::try_from(k).ok() == Some(ng.min_width), "the literal has all the characters of the text");
        if k <= 70 {
            let nc = caseless && letters;
            check(unsafe { vh_x_trie_nodes(&ng.smwr, nc) } == k + 1, "the literal is stored, once");
            check(unsafe { vh_x_trie_nodes(&ng.smwr, !nc) } == 1, "letters are caseless exactly if CASELESS is set");
            check(unsafe { vh_x_trie_end(&ng.smwr, nc, &lit[..k], 0) } == Some((1, true)), "the literal has exactly the characters of the text, in order, letters in upper case if caseless");
            if nc { cover("caseless") }
        } else { check(unsafe { vh_x_trie_nodes(&ng.smwr, false) + vh_x_trie_nodes(&ng.smwr, true) } == 2, "a long literal is not stored"); cover("long") }
    } else {
        cover("not a literal");
        check(ids == 0 && reports == 0 && keys == 0, "nothing is registered");
        check(unsafe { vh_x_trie_nodes(&ng.smwr, false) + vh_x_trie_nodes(&ng.smwr, true) } == 2, "nothing is stored");
        check(ng.min_width == Depth::infinity(), "the minimum match width is untouched");
    }
}
