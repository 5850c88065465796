// The entries live in /repo's modules (see ../props); this crate only makes rustc emit them.
#[allow(unused_extern_crates)]
extern crate rescan;

include!(concat!(env!("RESCAN_VERIF"), "/table.rs"));

fn main() {
    for t in TABLE {
        unsafe { t.1() }
    }
}
