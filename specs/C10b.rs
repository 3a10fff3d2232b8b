//@sources src/jomlib/dependencygraph.cpp
//@cfg
{'structs': ['DependencyGraph', 'Command'], 'heap': ['DependencyGraph::Node', 'DescriptionBlock'],
 'fields': {'DependencyGraph': ['m_root', 'm_nodeContainer', 'm_leaves', 'm_bDirtyLeaves'], 'DescriptionBlock': ['m_targetName'], 'Command': ['m_commandLine']}}
//@endcfg
pub type Node = DependencyGraph_Node;
pub open spec fn nd(h: HeapV) -> Map<u64, Node> { h.DependencyGraph_Node }
pub open spec fn with_nodes(h: HeapV, h2: HeapV) -> bool { h2 == (HeapV { DependencyGraph_Node: h2.DependencyGraph_Node, ..h }) }
pub open spec fn kids(h: HeapV, n: u64) -> Seq<u64> { nd(h)[n].children@ }
pub open spec fn pars(h: HeapV, n: u64) -> Seq<u64> { nd(h)[n].parents@ }
pub open spec fn kid_ok(h: HeapV, n: u64, c: u64) -> bool { c != 0 && nd(h).dom().contains(c) && pars(h, c).contains(n) }
pub open spec fn par_ok(h: HeapV, n: u64, p: u64) -> bool { p != 0 && nd(h).dom().contains(p) && kids(h, p).contains(n) }
pub open spec fn links(h: HeapV) -> bool {
    (forall|n: u64, c: u64| nd(h).dom().contains(n) && #[trigger] kids(h, n).contains(c) ==> kid_ok(h, n, c))
    && (forall|n: u64, p: u64| nd(h).dom().contains(n) && #[trigger] pars(h, n).contains(p) ==> par_ok(h, n, p))
    && (forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> kids(h, n).no_duplicates() && pars(h, n).no_duplicates())
}
pub open spec fn idle(h: HeapV) -> bool { forall|n: u64| #[trigger] nd(h).dom().contains(n) && nd(h)[n].state == 1 ==> kids(h, n).len() == 0 }
pub open spec fn node_at(h: HeapV, t: u64, n: u64) -> bool { n != 0 && nd(h).dom().contains(n) && nd(h)[n].target == t }
pub open spec fn known(h: HeapV, g: DependencyGraph, t: u64) -> bool { g.m_nodeContainer@.dom().contains(t) && node_at(h, t, g.m_nodeContainer@[t]) }
// ---- everything that needs a failed target is left unbuilt, and nothing else
pub open spec fn up(h: HeapV, n: u64, m: u64, k: nat) -> bool decreases k { if k == 0 { pars(h, n).contains(m) } else { exists|p: u64| #[trigger] pars(h, n).contains(p) && up(h, p, m, (k - 1) as nat) } }
pub open spec fn above(h: HeapV, n: u64, m: u64) -> bool { exists|k: nat| #[trigger] up(h, n, m, k) }
pub open spec fn same_links(h: HeapV, h2: HeapV) -> bool { with_nodes(h, h2) && nd(h2).dom() == nd(h).dom() && forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> nd(h2)[n] == (Node { state: nd(h2)[n].state, ..nd(h)[n] }) }
pub proof fn up_same(h: HeapV, h2: HeapV, n: u64, m: u64, k: nat)
    requires same_links(h, h2), links(h), nd(h).dom().contains(n)
    ensures up(h, n, m, k) == up(h2, n, m, k)
    decreases k
{ if k > 0 {
    if up(h, n, m, k) { let p = choose|p: u64| #[trigger] pars(h, n).contains(p) && up(h, p, m, (k - 1) as nat); assert(par_ok(h, n, p)); up_same(h, h2, p, m, (k - 1) as nat); assert(pars(h2, n).contains(p)); }
    if up(h2, n, m, k) { let p = choose|p: u64| #[trigger] pars(h2, n).contains(p) && up(h2, p, m, (k - 1) as nat); assert(pars(h, n).contains(p)); assert(par_ok(h, n, p)); up_same(h, h2, p, m, (k - 1) as nat); }
} }
pub proof fn above_same(h: HeapV, h2: HeapV, n: u64)
    requires same_links(h, h2), links(h), nd(h).dom().contains(n)
    ensures forall|m: u64| above(h, n, m) == above(h2, n, m)
{ assert forall|m: u64| above(h, n, m) == above(h2, n, m) by {
    if above(h, n, m) { let k = choose|k: nat| #[trigger] up(h, n, m, k); up_same(h, h2, n, m, k); }
    if above(h2, n, m) { let k = choose|k: nat| #[trigger] up(h2, n, m, k); up_same(h, h2, n, m, k); } } }
pub open spec fn via(h: HeapV, p: u64, m: u64) -> bool { p == m || above(h, p, m) }
pub open spec fn some_via(h: HeapV, n: u64, m: u64, i: int) -> bool { exists|j: int| 0 <= j < i && via(h, #[trigger] pars(h, n)[j], m) }
pub proof fn above_via(h: HeapV, n: u64) ensures forall|m: u64| above(h, n, m) == some_via(h, n, m, pars(h, n).len() as int)
{ let ps = pars(h, n); assert forall|m: u64| above(h, n, m) == some_via(h, n, m, ps.len() as int) by {
    if above(h, n, m) { let k = choose|k: nat| #[trigger] up(h, n, m, k); let p = if k == 0 { m } else { choose|p: u64| #[trigger] ps.contains(p) && up(h, p, m, (k - 1) as nat) }; assert(ps.contains(p)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p; assert(via(h, ps[j], m)); }
    if some_via(h, n, m, ps.len() as int) { let j = choose|j: int| 0 <= j < ps.len() && via(h, #[trigger] ps[j], m); assert(ps.contains(ps[j])); if ps[j] == m { assert(up(h, n, m, 0)); } else { let k = choose|k: nat| #[trigger] up(h, ps[j], m, k); assert(up(h, n, m, k + 1)); } }
} }
//@fn DependencyGraph::markParentsRecursivlyUnbuildable(P:Node)
//@flags heap
    requires links(old(hp)@), idle(old(hp)@), node != 0, nd(old(hp)@).dom().contains(node),
    ensures same_links(old(hp)@, final(hp)@), links(final(hp)@), idle(final(hp)@),
        forall|m: u64| #[trigger] nd(old(hp)@).dom().contains(m) ==> nd(final(hp)@)[m].state == (if above(old(hp)@, node, m) { 2 } else { nd(old(hp)@)[m].state }),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost ps = pars(h0, node); let ghost mut h1 = h0; let ghost mut h2 = h0;
//@loop 1
    invariant 0 <= fe1_i <= ps.len(), fe1_c@ == ps, same_links(h0, hp@), links(hp@), idle(hp@),
        forall|m: u64| #[trigger] nd(h0).dom().contains(m) ==> nd(hp@)[m].state == (if some_via(h0, node, m, fe1_i as int) { 2 } else { nd(h0)[m].state }),
    decreases ps.len() - fe1_i
//@body 1
    proof { h1 = hp@; let p = ps[fe1_i as int]; assert(ps.contains(p)); assert(par_ok(h0, node, p)); }
//@call markParentsRecursivlyUnbuildable 1
    proof { h2 = hp@; assert(nd(h2).dom() =~= nd(h0).dom()); let p = ps[fe1_i as int]; assert(kids(h0, p).contains(node)); states_only(h1, h2, p); above_same(h0, h2, p); }
//@end 1
    proof {
        let i = fe1_i as int; let p = ps[i];
        assert forall|m: u64| #[trigger] nd(h0).dom().contains(m) implies nd(hp@)[m].state == (if some_via(h0, node, m, i + 1) { 2 } else { nd(h0)[m].state }) by {
            assert(nd(h2).dom().contains(m)); assert(nd(h1).dom().contains(m));
            if some_via(h0, node, m, i) { let j = choose|j: int| 0 <= j < i && via(h0, #[trigger] pars(h0, node)[j], m); assert(some_via(h0, node, m, i + 1)); }
            if via(h0, p, m) { assert(via(h0, pars(h0, node)[i], m)); }
            if some_via(h0, node, m, i + 1) { let j = choose|j: int| 0 <= j < i + 1 && via(h0, #[trigger] pars(h0, node)[j], m); if j < i { assert(some_via(h0, node, m, i)); } }
        }
        assert(same_links(h0, hp@)) by { assert forall|n: u64| #[trigger] nd(h0).dom().contains(n) implies nd(hp@)[n] == (Node { state: nd(hp@)[n].state, ..nd(h0)[n] }) by { assert(nd(h2).dom().contains(n)); assert(nd(h1).dom().contains(n)); } }
    }
//@exit
    proof { above_via(h0, node); }
//@endfn
pub proof fn states_only(h: HeapV, h2: HeapV, p: u64)
    requires links(h), idle(h), same_links(h, h2), nd(h).dom().contains(p), kids(h, p).len() > 0, forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> nd(h2)[n].state == nd(h)[n].state || n == p && nd(h2)[n].state == 2
    ensures links(h2), idle(h2)
{
    assert forall|n: u64, c: u64| nd(h2).dom().contains(n) && #[trigger] kids(h2, n).contains(c) implies kid_ok(h2, n, c) by { assert(nd(h).dom().contains(n)); assert(kids(h, n).contains(c)); assert(kid_ok(h, n, c)); }
    assert forall|n: u64, c: u64| nd(h2).dom().contains(n) && #[trigger] pars(h2, n).contains(c) implies par_ok(h2, n, c) by { assert(nd(h).dom().contains(n)); assert(pars(h, n).contains(c)); assert(par_ok(h, n, c)); }
    assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) implies kids(h2, n).no_duplicates() && pars(h2, n).no_duplicates() by { assert(nd(h).dom().contains(n)); }
    assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) && nd(h2)[n].state == 1 implies kids(h2, n).len() == 0 by { assert(nd(h).dom().contains(n)); }
}

// ---- the same by targets
//@fn DependencyGraph::isUnbuildable
//@flags heap
    requires known(old(hp)@, *this, target),
    ensures final(hp)@ == old(hp)@, res == (nd(old(hp)@)[this.m_nodeContainer@[target]].state == 2)
//@endfn
//@fn DependencyGraph::markParentsRecursivlyUnbuildable(P:DescriptionBlock)
//@flags heap
    requires links(old(hp)@), idle(old(hp)@), known(old(hp)@, *old(this), target),
    ensures *final(this) == *old(this), same_links(old(hp)@, final(hp)@), links(final(hp)@), idle(final(hp)@),
        forall|m: u64| #[trigger] nd(old(hp)@).dom().contains(m) ==> nd(final(hp)@)[m].state == (if above(old(hp)@, old(this).m_nodeContainer@[target], m) { 2 } else { nd(old(hp)@)[m].state }),
//@endfn
