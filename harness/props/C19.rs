//@ module ng_holder
use crate::verif::*;
#[no_mangle]
pub extern "C-unwind" fn vh_h_c19_new() {
    let g = NgHolder::new();
    let (n, s) = vh_x_vertices(&g);
    check(n == 4 && g.num_vertices() == 4, "a new graph has four vertices");
    for i in 0..4 { for j in 0..i { check(s[i] != s[j], "the special vertices are distinct") } }
    for k in 0..4 { check(vh_x_reach(&g, s[k]).iter().all(|x| *x == if k < 2 { 0xff } else { 0 }), "the starts are reachable on every byte, the accepts on none") }
    let sp = [g.start, g.start_ds, g.accept, g.accept_eod];
    for i in 0..4 { for j in 0..4 {
        let want = (i, j) == (0, 1) || (i, j) == (1, 1) || (i, j) == (2, 3);
        check(g.inner.find_edge(sp[i], sp[j]).is_some() == want, "start to floating start, floating start to itself, accept to end-of-data accept, and no other edge");
    } }
    check(g.inner.edge_count() == 3, "three edges");
    check(!g.is_vacuous(), "a new graph is not vacuous");
    check(g.all_reports().is_empty(), "a new graph has no reports");
    for k in 0..4 { check(g[sp[k]].reports.is_empty() && g[sp[k]].assert_flags.is_empty(), "a new graph has no reports or asserts") }
    let mut g = g;
    let v = g.add_vertex();
    check(g.num_vertices() == 5 && vh_x_reach(&g, v.index()).iter().all(|x| *x == 0) && sp.iter().all(|x| *x != v) && g.inner.edge_count() == 3, "an added vertex is new and reachable on nothing");
    observe(v.index() as u64, "vertex");
    cover("new");
}
/// params: plain vertices, then a mask of the arbitrary edges out of the 8 (vertex, accept) pairs per side used below, reports per vertex.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c19_queries() {
    let (k, mask, per) = (param(0) as usize, param(1), param(2) as usize);
    let mut g = NgHolder::new();
    let mut v = [g.start, g.start_ds, g.accept, g.accept_eod, g.start, g.start, g.start];
    for i in 0..k { v[4 + i] = g.add_vertex() }
    let mut into = [[false; 2]; 7];
    into[2][1] = true;
    let mut e = 0;
    for i in 0..4 + k { for (j, a) in [g.accept, g.accept_eod].iter().enumerate() {
        let asked = (mask >> e) & 1 == 1;
        e += 1;
        if !asked { continue }
        let on = split(sym_bool("edge") as usize) == 1;
        if on {
            g.inner.add_edge(v[i], *a, NfaGraphEdgeProps::default());
            if param(3) == 1 { g.inner.add_edge(v[i], *a, NfaGraphEdgeProps::default()); }
            into[i][j] = true;
        }
    } }
    if k > 1 { g.inner.add_edge(v[4], v[5], NfaGraphEdgeProps::default()); g.inner.add_edge(v[0], v[4], NfaGraphEdgeProps::default()); }
    let mut reps = [[0u32; 3]; 7];
    for i in 0..4 + k { for j in 0..per { let r = sym_u32("report"); if param(4) == 1 { assume(r < 4) } reps[i][j] = r; g[v[i]].reports.insert(r); } }
    let got = g.all_reports();
    let (mut distinct, mut seen) = (0usize, [(0u32, false); 21]);
    let mut t = 0;
    for i in 0..4 + k { for j in 0..per {
        let counts = into[i][0] | into[i][1];
        let mut dup = false;
        for s in &seen[..t] { dup |= s.1 & (s.0 == reps[i][j]) }
        if counts { check(got.contains(&reps[i][j]), "every report on a vertex with an edge into an accept is found") }
        distinct += (counts & !dup) as usize;
        seen[t] = (reps[i][j], counts);
        t += 1;
    } }
    check(got.len() == distinct, "no other report is found");
    let vac = into[0][0] | into[0][1] | into[1][0] | into[1][1];
    check(g.is_vacuous() == vac, "vacuous exactly when a start has an edge into an accept");
    observe(distinct as u64, "reports");
    if vac { cover("vacuous") } else { cover("not vacuous") }
}
