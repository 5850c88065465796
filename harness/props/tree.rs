//@ module parser
use crate::verif::*;
use std::cell::Cell;
use std::convert::TryInto;
use crate::parser::ascii_component_class::AsciiComponentClass;
const EVENTS: usize = 4 * TEXT;
/// Records the calls a walk makes: [ ] sequences (with capture index + 1, 0 for none), { } alternations, c e classes, , ; the calls between.
pub(crate) struct Trace { ev: Vec<Cell<(u8, u32)>>, n: Cell<usize>, raw: Vec<Raw>, pres: u32, fail_at: u32 }
impl Trace {
    fn new(fail_at: u32) -> Self { Trace { ev: vec![Cell::new((0, 0)); EVENTS], n: Cell::new(0), raw: Vec::with_capacity(TEXT), pres: 0, fail_at } }
    fn add(&self, e: u8, x: u32) { let n = self.n.get(); self.ev[n].set((e, x)); self.n.set(n + 1) }
    fn pre(&mut self, e: u8, x: u32) -> Result<(), u32> {
        self.add(e, x);
        self.pres += 1;
        if self.pres == self.fail_at { Err(self.pres) } else { Ok(()) }
    }
}
impl ConstComponentVisitor for Trace {
    type Error = u32;
    fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), u32> {
        self.raw.push(unsafe { std::mem::transmute::<crate::util::CharReach, Raw>(c.cr) });
        self.pre(b'c', 0)
    }
    fn pre_component_alternation(&mut self, _: &ComponentAlternation) -> Result<(), u32> { self.pre(b'{', 0) }
    fn pre_component_sequence(&mut self, c: &ComponentSequence) -> Result<(), u32> { self.pre(b'[', c.capture_index.map_or(0, |i| i.wrapping_add(1))) }
    fn during_ascii_component_class(&self, _: &AsciiComponentClass) {}
    fn during_component_alternation(&self, _: &ComponentAlternation) { self.add(b';', 0) }
    fn during_component_sequence(&self, _: &ComponentSequence) { self.add(b',', 0) }
    fn post_ascii_component_class(&mut self, _: &AsciiComponentClass) { self.add(b'e', 0) }
    fn post_component_alternation(&mut self, _: &ComponentAlternation) { self.add(b'}', 0) }
    fn post_component_sequence(&mut self, _: &ComponentSequence) { self.add(b']', 0) }
}
/// The calls a walk of the tree of the text must make; `at` are the positions of its literals.
pub(crate) struct Expect { ev: Vec<(u8, u32)>, at: Vec<usize> }
impl Expect {
    fn items(&mut self, p: &[u8], i: usize, end: usize) {
        let mut k = i;
        while k < end {
            if k != i { self.ev.push((b',', 0)) }
            if p[k] == b'(' {
                let (mut d, mut e) = (1, k + 1);
                while d > 0 { if p[e] == b'(' { d += 1 } else if p[e] == b')' { d -= 1 } e += 1 }
                let cap = p[..=k].iter().filter(|c| **c == b'(').count() as u32;
                self.sequence(p, k + 1, e - 1, cap + 1);
                k = e;
            } else {
                self.ev.push((b'c', 0));
                self.ev.push((b'e', 0));
                self.at.push(k);
                k += 1;
            }
        }
    }
    fn sequence(&mut self, p: &[u8], i: usize, end: usize, cap: u32) {
        self.ev.push((b'[', cap));
        let mut bars = Vec::new();
        let mut d = 0;
        for k in i..end { if p[k] == b'(' { d += 1 } else if p[k] == b')' { d -= 1 } else if p[k] == b'|' && d == 0 { bars.push(k) } }
        if bars.is_empty() { self.items(p, i, end) } else {
            self.ev.push((b'{', 0));
            let mut from = i;
            bars.push(end);
            for (j, bar) in bars.iter().enumerate() {
                if j > 0 { self.ev.push((b';', 0)) }
                self.ev.push((b'[', 0));
                self.items(p, from, *bar);
                self.ev.push((b']', 0));
                from = bar + 1;
            }
            self.ev.push((b'}', 0));
        }
        self.ev.push((b']', 0));
    }
}
/// For a text that has been parsed on this path; `start` is where the text begins.
pub(crate) fn expected_walk(b: &[u8], start: usize) -> Expect {
    let mut p = [b'a'; TEXT];
    for i in start..b.len() { if b[i] == b'(' { p[i] = b'(' } else if b[i] == b')' { p[i] = b')' } else if b[i] == b'|' { p[i] = b'|' } }
    let mut x = Expect { ev: Vec::with_capacity(EVENTS), at: Vec::with_capacity(TEXT) };
    x.sequence(&p, start, b.len(), 1);
    x
}
/// Whether `r` is exactly the class of a literal `c`.
pub(crate) fn is_class(r: &Raw, c: u8, caseless: bool) -> bool {
    let low = c | 0x20;
    let twin = caseless & (low >= b'a') & (low <= b'z');
    let mut d = 0u8;
    for i in 0..32u8 {
        let one = (((c >> 3) == i) as u8) << (c & 7);
        let two = ((((c ^ 0x20) >> 3) == i) & twin) as u8;
        d |= r[i as usize] ^ (one | two << (c & 7));
    }
    d == 0
}
/// Where the text proper of an accepted expression starts: after the control verb, if there is one.
pub(crate) fn text_start(b: &[u8]) -> usize { split(want(b, 0).start) }
