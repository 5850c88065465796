//@ module smallwrite_build
/// params: literals, how (see Lit::arbitrary), fixed characters each, then the number of arbitrary characters of each.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c12_trie() {
    let (m, how, fixed) = (param(0) as usize, param(1), param(2) as usize);
    let cc = CompileContext::new(false, false, &crate::Grey::default());
    let mut s = SmallWriteBuild::new(m, &cc);
    let mut lits = [Lit { c: [0; CHARS], nc: [false; CHARS], n: 0 }; 6];
    let mut rep = [0u32; 6];
    for i in 0..m {
        lits[i] = Lit::arbitrary(fixed, param(3 + i as u64) as usize, how);
        rep[i] = sym_u32("report");
        s.add_literal(&lits[i].make(), rep[i]);
    }
    check(!s.poisoned, "nothing disables the builder within the limits");
    // what the tries must hold
    let (mut nodes, mut sum) = ([1usize; 2], [0usize; 2]);
    for i in 0..m {
        let ti = lits[i].any_nocase();
        for k in 1..=lits[i].n {
            let mut seen = false;
            for j in 0..i { seen |= (lits[j].any_nocase() == ti) & lits[j].same(&lits[i], k) }
            nodes[1] += (ti & !seen) as usize;
            nodes[0] += (!ti & !seen) as usize;
        }
        let mut seen = false;
        for j in 0..i { seen |= (lits[j].any_nocase() == ti) & (lits[j].n == lits[i].n) & lits[j].same(&lits[i], lits[i].n) & (rep[j] == rep[i]) }
        sum[1] += (ti & !seen) as usize;
        sum[0] += (!ti & !seen) as usize;
    }
    for t in 0..2 {
        check(trie_of(&s, t == 1).inner.node_count() == nodes[t], "a trie has one node per distinct prefix");
        check(vh_x_reports(&s, t == 1) == sum[t], "only nodes that end a literal carry reports, each once");
        let g = &trie_of(&s, t == 1).inner;
        check(g.edge_count() + 1 == g.node_count(), "a trie is a tree");
        for u in g.node_indices() {
            let mut v = g.neighbors_directed(u, Direction::Outgoing);
            while let Some(a) = v.next() { for b in v.clone() { check(g[a].c != g[b].c, "no node has two children for one character") } }
        }
    }
    observe(nodes[0] as u64, "nodes");
    observe(nodes[1] as u64, "caseless nodes");
    if nodes[0] > 1 && nodes[1] > 1 { cover("both tries") }
    for i in 0..m {
        let t = lits[i].any_nocase();
        match vh_x_trie_end(&s, t, &lits[i].c[..lits[i].n], rep[i]) {
            Some((k, has)) => {
                check(has, "the node a literal leads to carries its report");
                let mut want = 0usize;
                for j in 0..m {
                    let hit = (lits[j].any_nocase() == t) & (lits[j].n == lits[i].n) & lits[j].same(&lits[i], lits[i].n);
                    let mut dup = false;
                    for l in 0..j { dup |= (lits[l].any_nocase() == t) & (lits[l].n == lits[i].n) & lits[l].same(&lits[i], lits[i].n) & (rep[l] == rep[j]) }
                    want += (hit & !dup) as usize;
                }
                check(k == want, "the node a literal leads to carries no other literal's report");
                if want > 1 { cover("shared node") } else { cover("own node") }
            }
            None => check(false, "every literal can be followed"),
        }
    }
}
/// A root with many children; params: children, then arbitrary characters of a further literal.
#[no_mangle]
pub extern "C-unwind" fn vh_h_c12_wide() {
    let (k, n) = (param(0) as usize, param(1) as usize);
    let cc = CompileContext::new(false, false, &crate::Grey::default());
    let mut s = SmallWriteBuild::new(1, &cc);
    // characters 255, 254, ... so that the most recent child is the smallest
    for i in 0..k {
        let mut l = Ue2Literal::default();
        l.push(255 - i as u8, false);
        s.add_literal(&l, i as u32);
    }
    let lit = Lit::arbitrary(0, n, 0);
    let rep = sym_u32("report");
    let child = (255 - lit.c[0] as usize) < k;
    for _ in 0..2 {
        s.add_literal(&lit.make(), rep);
        check(trie_of(&s, false).inner.node_count() == 1 + k + n - child as usize, "a trie has one node per distinct prefix");
        check(vh_x_reports(&s, false) == k + 1 - ((n == 1) & child & (rep as usize == 255 - lit.c[0] as usize)) as usize, "only nodes that end a literal carry reports, each once");
        match vh_x_trie_end(&s, false, &lit.c[..n], rep) {
            Some((k, has)) => { check(has & (k == 1 + ((n == 1) & child & (rep as usize != 255 - lit.c[0] as usize)) as usize), "the node a literal leads to carries its report"); }
            None => check(false, "every literal can be followed"),
        }
    }
    observe(child as u64, "a child already");
    if child { cover("shared node") } else { cover("own node") }
}
