//@ module lib
// Expressions and what compiling one should do.
#[allow(dead_code)]
const PIECES: &[&str] = &[
    "", "(*UTF8)", "(*UTF)", "(*UCP)", "(*", ")", "(*LIMIT_MATCH", "(*LIMIT_RECURSION=", "(*NO_AUTO_POSSESS", "(*NO_START_OPT", // 0..10
    "(*BSR_ANYCRLF", "(*BSR_UNICODE", "(*ANYCRLF", "(*CRLF", "(*UTF16", "(*UTF32", "(*ANY", "(*CR", "(*LF", "(*UT", // 10..20
    "(((((((((((", ")))))))))))", "ab(cd)|(ef|g)", "xyzzy(plugh)0123456789|", "(*\u{e9}", "\u{20ac}", "(*NO_", "_OPT)", "(*UTF8)(*UCP)", "(*)", // 20..30
    "a", "(a|b(c)|())|d", "(*LIMIT_", "=1)", "(*BSR_", "UNI", "(*UCP)(", "(*UTF)ab(cd)|(ef|g)(", // 30..38
];
pub(crate) const TEXT: usize = 640;
/// Piece `p`; 1000 + n, 2000 + n, 3000 + n and 4000 + n are n times ( ) a and |; 5000 + n is n times (), 6000 + n is n times a|,
/// 9000 + n is n times a with one non-ASCII character after any number of them.
#[allow(dead_code)]
fn piece(p: usize, b: &mut [u8]) -> usize {
    if p < 1000 { let s = PIECES[p].as_bytes(); b[..s.len()].copy_from_slice(s); return s.len() }
    let (kind, n) = (p / 1000, p % 1000);
    if kind == 9 {
        for c in b[..n].iter_mut() { *c = b'a' }
        let (at, c) = (sym_u16("non-ASCII at") as usize, sym_u8("character") as usize);
        assume((at <= n) & (c < 3));
        let (at, c) = (split(at), ["\u{e9}", "\u{20ac}", "\u{1f600}"][split(c)].as_bytes());
        b[at..at + c.len()].copy_from_slice(c);
        for x in b[at + c.len()..n + c.len()].iter_mut() { *x = b'a' }
        return n + c.len();
    }
    if kind >= 5 {
        for i in 0..n { b[2 * i] = b"(a"[kind - 5]; b[2 * i + 1] = b")|"[kind - 5] }
        return 2 * n;
    }
    for i in 0..n { b[i] = b"()a|"[kind - 1] }
    n
}
/// An expression: piece, `n` arbitrary bytes, piece, `m` bytes out of ( ) | a, piece. Params at `at`: piece, n, piece, m, piece; n + 100 for ASCII bytes.
#[allow(dead_code)]
pub(crate) fn text(at: u64, b: &mut [u8; TEXT]) -> usize {
    let mut t = 0usize;
    for k in 0..5u64 {
        let p = param(at + k) as usize;
        match k {
            1 => {
                fill(&mut b[t..t + p % 100], "text");
                if p >= 100 { for c in &b[t..t + p % 100] { assume(*c < 0x80) } }
                t += p % 100
            }
            3 => {
                fill(&mut b[t..t + p], "structure");
                for c in &b[t..t + p] { assume((*c == b'(') | (*c == b')') | (*c == b'|') | (*c == b'a')) }
                t += p
            }
            _ => t += piece(p, &mut b[t..]),
        }
    }
    t
}
/// The flags: those of `param(at)`, or arbitrary ones for 65535.
#[allow(dead_code)]
pub(crate) fn text_flags(at: u64) -> u16 { if param(at) == 0xffff { sym_u16("flags") } else { param(at) as u16 } }
#[allow(dead_code)]
#[derive(Clone, Copy, PartialEq)]
pub(crate) enum What { Fine = 0, BadFlags, UnsupportedVerb, UnknownVerb, Unmatched, NonAscii, Unclosed }
/// What must happen: `kind` (a `What`), the byte index an error names, where parsing starts, what the verb sets.
#[allow(dead_code)]
#[derive(Clone, Copy)]
pub(crate) struct Want { pub(crate) kind: u32, pub(crate) at: usize, pub(crate) start: usize, pub(crate) utf8: bool, pub(crate) ucp: bool }
#[allow(dead_code)]
pub(crate) fn pick(c: bool, a: usize, b: usize) -> usize { let m = 0usize.wrapping_sub(c as usize); (a & m) | (b & !m) }
#[allow(dead_code)]
fn is(b: &[u8], s: &str) -> bool {
    let s = s.as_bytes();
    if s.len() != b.len() { return false }
    let mut d = 0u8;
    for i in 0..s.len() { d |= b[i] ^ s[i] }
    d == 0
}
/// `want` for long texts that hold no verb and have been parsed already: what each byte is has been decided on this path.
#[allow(dead_code)]
pub(crate) fn want_parsed(b: &[u8], flags: u16) -> Want {
    let mut plain = [b'a'; TEXT];
    for i in 0..b.len() {
        if b[i] == b'(' { plain[i] = b'(' } else if b[i] == b')' { plain[i] = b')' } else if b[i] >= 0x80 { plain[i] = 0x80 }
    }
    want(&plain[..b.len()], flags)
}
/// Without branches on the text, so that paths stay few.
#[allow(dead_code)]
pub(crate) fn want(b: &[u8], flags: u16) -> Want {
    let n = b.len();
    let (mut verb, mut start, mut bad, mut utf8, mut ucp) = (false, 0usize, false, false, false);
    if n >= 4 {
        let mut open = (b[0] == b'(') & (b[1] == b'*') & (b[2] != b')');
        for k in 3..n {
            let here = open & (b[k] == b')');
            let v = &b[2..k];
            let lim = |s: &str| v.len() >= s.len() && is(&v[..s.len()], s);
            utf8 |= here & (is(v, "UTF8") | is(v, "UTF"));
            ucp |= here & is(v, "UCP");
            let mut uns = lim("LIMIT_MATCH=") | lim("LIMIT_RECURSION=");
            for s in ["NO_AUTO_POSSESS", "NO_START_OPT", "UTF16", "UTF32", "CR", "LF", "CRLF", "ANYCRLF", "ANY", "BSR_ANYCRLF", "BSR_UNICODE"].iter() { uns |= is(v, s) }
            bad |= here & uns;
            start = pick(here, k + 1, start);
            verb |= here;
            open &= !here;
        }
    }
    let known = utf8 | ucp;
    let (mut depth, mut err, mut at) = (0usize, What::Fine as usize, 0usize);
    for i in 0..n {
        let on = (i >= start) & (err == 0);
        let (c, o) = (b[i] == b')', b[i] == b'(');
        let un = on & c & (depth == 0);
        let na = on & (b[i] >= 0x80);
        at = pick(un | na, i, at);
        err = pick(un, What::Unmatched as usize, pick(na, What::NonAscii as usize, err));
        depth = pick(on & o, depth + 1, pick(on & c & !un, depth.wrapping_sub(1), depth));
    }
    // the innermost group left open: the last '(' without a ')' of its own after it
    let (mut need, mut found, mut inner) = (0usize, false, 0usize);
    for i in (0..n).rev() {
        let on = i >= start;
        let (c, o) = (on & (b[i] == b')'), on & (b[i] == b'('));
        let this = o & (need == 0) & !found;
        inner = pick(this, i, inner);
        need = pick(c, need + 1, pick(o & (need != 0), need.wrapping_sub(1), need));
        found |= this;
    }
    let unclosed = (err == 0) & (depth != 0);
    err = pick(unclosed, What::Unclosed as usize, err);
    at = pick(unclosed, inner, at);
    let wrong = verb & !known;
    err = pick(wrong, pick(bad, What::UnsupportedVerb as usize, What::UnknownVerb as usize), err);
    at = pick(wrong, 2, at);
    let both = flags & 0x500 == 0x500;
    err = pick(both, What::BadFlags as usize, err);
    Want { kind: err as u32, at, start, utf8, ucp }
}
