//@ module ng_holder
#[no_mangle]
pub fn vh_x_vertices(g: &NgHolder) -> (usize, [usize; 4]) { (g.inner.node_count(), [g.start.index(), g.start_ds.index(), g.accept.index(), g.accept_eod.index()]) }
#[no_mangle]
pub fn vh_x_reach(g: &NgHolder, v: usize) -> crate::verif::Raw { unsafe { std::mem::transmute::<CharReach, crate::verif::Raw>(g.inner[NfaVertex::new(v)].char_reach) } }
