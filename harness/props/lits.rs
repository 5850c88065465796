//@ module lib
pub(crate) const CHARS: usize = 320;
/// A literal of a run: fixed characters, then arbitrary ones.
#[derive(Clone, Copy)]
pub(crate) struct Lit { pub(crate) c: [u8; CHARS], pub(crate) nc: [bool; CHARS], pub(crate) n: usize }
#[allow(dead_code)]
impl Lit {
    /// `n` arbitrary characters; `how` 0: all case-sensitive, 1: all caseless, 2: caseless or not as one, 3: each on its own,
    /// 4: letters caseless, others not (what a caseless expression gives).
    pub(crate) fn arbitrary(fixed: usize, n: usize, how: u64) -> Lit {
        let mut l = Lit { c: [0; CHARS], nc: [false; CHARS], n: 0 };
        let one = how == 2 && sym_bool("caseless");
        for i in 0..fixed + n {
            let c = if i < fixed { b"aB-z0"[i % 5] } else { sym_u8("c") };
            let low = c | 0x20;
            let letter = (low >= b'a') & (low <= b'z');
            let nc = match how { 0 => false, 1 => true, 2 => one, 3 => if i < fixed { i % 2 == 0 } else { sym_bool("nocase") }, _ => letter };
            l.c[i] = if nc & letter { c & !0x20 } else { c };
            l.nc[i] = nc;
            l.n += 1;
        }
        l
    }
    pub(crate) fn make(&self) -> crate::util::Ue2Literal {
        let mut l = crate::util::Ue2Literal::default();
        for i in 0..self.n { l.push(self.c[i], self.nc[i]) }
        l
    }
    pub(crate) fn any_nocase(&self) -> bool { let mut a = false; for i in 0..self.n { a |= self.nc[i] } a }
    pub(crate) fn mixed(&self) -> bool {
        let (mut cs, mut nc) = (false, false);
        for i in 0..self.n { let low = self.c[i] | 0x20; let letter = (low >= b'a') & (low <= b'z'); cs |= letter & !self.nc[i]; nc |= letter & self.nc[i] }
        cs & nc
    }
    /// Whether the first `k` characters are those of `o`.
    pub(crate) fn same(&self, o: &Lit, k: usize) -> bool {
        if self.n < k || o.n < k { return false }
        let mut d = 0u8;
        for i in 0..k { d |= self.c[i] ^ o.c[i] }
        d == 0
    }
}
//@ module smallwrite_build
#[allow(unused_imports)]
use crate::verif::*;
fn trie_of<'b>(s: &'b SmallWriteBuild, nocase: bool) -> &'b LitTrie { if nocase { &s.lit_trie_nocase } else { &s.lit_trie } }
#[no_mangle]
pub fn vh_x_trie_nodes(s: &SmallWriteBuild, nocase: bool) -> usize { trie_of(s, nocase).inner.node_count() }
/// The node a literal leads to.
fn follow(s: &SmallWriteBuild, nocase: bool, c: &[u8]) -> Option<LitTrieVertex> {
    let t = trie_of(s, nocase);
    let mut u = t.root;
    for x in c { u = t.inner.neighbors_directed(u, Direction::Outgoing).find(|v| t.inner[*v].c == *x)? }
    Some(u)
}
/// How many reports the node a literal leads to carries, and whether `r` is one of them.
#[no_mangle]
pub fn vh_x_trie_end(s: &SmallWriteBuild, nocase: bool, c: &[u8], r: ReportId) -> Option<(usize, bool)> {
    let u = follow(s, nocase, c)?;
    let set = &trie_of(s, nocase).inner[u].reports;
    Some((set.len(), set.contains(&r)))
}
#[no_mangle]
pub fn vh_x_reports(s: &SmallWriteBuild, nocase: bool) -> usize {
    let t = trie_of(s, nocase);
    t.inner.node_indices().map(|v| t.inner[v].reports.len()).sum()
}
#[no_mangle]
pub fn vh_x_poisoned(s: &SmallWriteBuild) -> bool { s.poisoned }
