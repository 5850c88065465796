//@ module rose
use crate::verif::*;
#[no_mangle]
pub extern "C-unwind" fn vh_h_c21_engine() {
    let (streaming, vectored) = (sym_bool("streaming"), sym_bool("vectored"));
    let cc = crate::util::CompileContext::new(streaming, vectored, &crate::Grey::default());
    let build = RoseBuild { cc: &cc, has_som: sym_bool("start of match") };
    let mut r = RoseResources::default();
    r.has_outfixes = sym_bool("outfixes");
    r.has_suffixes = sym_bool("suffixes");
    r.has_leftfixes = sym_bool("leftfixes");
    r.has_literals = sym_bool("literals");
    r.has_states = sym_bool("states");
    r.checks_groups = sym_bool("groups");
    r.has_lit_delay = sym_bool("delay");
    r.has_lit_check = sym_bool("check");
    r.has_anchored = sym_bool("anchored");
    r.has_anchored_multiple = sym_bool("anchored multiple");
    r.has_anchored_large = sym_bool("anchored large");
    r.has_floating = sym_bool("floating");
    r.has_eod = sym_bool("eod");
    let other = r.has_outfixes | r.has_suffixes | r.has_leftfixes | r.has_states | r.checks_groups | r.has_lit_delay | r.has_anchored | r.has_eod | (streaming & r.has_lit_check);
    let want = r.has_floating & !other;
    let pure = match rose_build_bytecode::pick_runtime_impl(&build, &r) { RoseRuntimeImpl::PureLiteral => true, RoseRuntimeImpl::FullRose => false, RoseRuntimeImpl::SingleOutfix => { check(false, "nothing else is picked"); false } };
    check(pure == want, "the pure-literal engine is picked exactly when nothing else is needed");
    observe(pure as u64, "pure literal");
    if pure { cover("pure literal") } else { cover("full") }
}
