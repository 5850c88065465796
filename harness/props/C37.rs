//@ module util
use crate::verif::*;
use super::dump_charclass::{describe_class, CcOutput};
/// Text of a description and a cursor; every byte is fixed once the members on this path are.
struct Text { b: [u8; 640], n: usize, at: usize, dot: bool, ok: bool }
impl Text {
    fn peek(&self) -> u8 { if self.at < self.n { self.b[self.at] } else { 0 } }
    fn next(&mut self) -> u8 { let c = self.peek(); if self.at >= self.n { self.ok = false } self.at += 1; c }
    fn hex(&mut self) -> u8 { let c = self.next(); match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, _ => { self.ok = false; 0 } } }
    /// The start of an escape: one backslash, in DOT output a doubled one.
    fn escape(&mut self) -> bool {
        if self.peek() != b'\\' { return false }
        self.at += 1;
        if self.dot {
            if self.peek() == b'\\' { self.at += 1 } else if self.peek() != b'"' && self.peek() != b'\'' { self.ok = false }
        }
        true
    }
}
enum Item { Char(u8), Mnemonic(u8) }
fn item(t: &mut Text) -> Item {
    if t.escape() {
        match t.next() {
            b't' => Item::Char(9), b'n' => Item::Char(10), b'r' => Item::Char(13),
            b'x' => { let h = t.hex(); let l = t.hex(); Item::Char(h * 16 + l) }
            c @ (b'w' | b'd' | b's') => Item::Mnemonic(c),
            c @ (b'^' | b'-' | b'[' | b']' | b'.' | b'"' | b'\'') => Item::Char(c),
            _ => { t.ok = false; Item::Char(0) }
        }
    } else {
        let c = t.next();
        if c <= 0x20 || c >= 0x7f || b"^-[]\\.".contains(&c) || (t.dot && (c == b'"' || c == b'\'')) { t.ok = false }
        Item::Char(c)
    }
}
fn add(r: &mut Raw, i: Item) {
    match i {
        Item::Char(c) => put(r, c),
        Item::Mnemonic(b'w') => for c in 0..=255u8 { if c.is_ascii_alphanumeric() || c == b'_' { put(r, c) } },
        Item::Mnemonic(b'd') => for c in b'0'..=b'9' { put(r, c) },
        Item::Mnemonic(_) => { for c in 9..=13u8 { put(r, c) } put(r, 32) }
    }
}
fn list(t: &mut Text) -> Raw {
    let mut r = [0u8; 32];
    while t.ok && t.at < t.n && t.peek() != b']' {
        let i = item(t);
        if t.peek() == b'-' {
            t.at += 1;
            match (i, item(t)) {
                (Item::Char(a), Item::Char(b)) if a <= b => for c in a..=b { put(&mut r, c) },
                _ => t.ok = false,
            }
        } else { add(&mut r, i) }
    }
    r
}
fn read(t: &mut Text) -> Raw {
    let mut r = [0u8; 32];
    if &t.b[..t.n] == b"<any>" { return [255; 32] }
    if &t.b[..t.n] == b"<empty>" { return r }
    if t.peek() == b'[' {
        t.at += 1;
        let neg = t.peek() == b'^';
        if neg { t.at += 1 }
        r = list(t);
        if t.next() != b']' { t.ok = false }
        if neg { for x in r.iter_mut() { *x = !*x } }
    } else { let i = item(t); add(&mut r, i) }
    if t.at != t.n { t.ok = false }
    r
}
fn describe(r: &Raw, dot: bool) {
    let mut s = String::new();
    check(describe_class(&mut s, &to_cr(*r), 300, if dot { CcOutput::Dot } else { CcOutput::Text }).is_ok(), "describing a class succeeds");
    let mut t = Text { b: [0; 640], n: s.len(), at: 0, dot, ok: true };
    check(t.n <= 640, "the description is no longer than the class needs");
    let mut h = 0u64;
    for i in 0..t.n { t.b[i] = split(s.as_bytes()[i] as usize) as u8; h = h.rotate_left(7) ^ t.b[i] as u64 }
    let got = read(&mut t);
    check(t.ok, "the description reads back");
    let mut diff = 0u8;
    for i in 0..32 { diff |= got[i] ^ r[i] }
    check(diff == 0, "the description denotes the class");
    observe(h, "text");
    match t.b[0] { b'<' => cover("named"), b'[' => if t.b[1] == b'^' { cover("negated list") } else { cover("list") }, _ => cover("single") }
}
#[no_mangle]
pub extern "C-unwind" fn vh_h_c37_text() { describe(&param_set(0, "set"), false) }
#[no_mangle]
pub extern "C-unwind" fn vh_h_c37_dot() { describe(&param_set(0, "set"), true) }
