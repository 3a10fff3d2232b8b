//@sources src/jomlib/dependencygraph.cpp src/jomlib/makefile.cpp src/jomlib/fastfileinfo.cpp src/jomlib/filetime.cpp
//@cfg
{'structs': ['DependencyGraph', 'Command', 'FileTime', 'FastFileInfo'], 'heap': ['DependencyGraph::Node', 'DescriptionBlock', 'Makefile'],
 'fields': {'DependencyGraph': ['m_root', 'm_nodeContainer', 'm_leaves', 'm_bDirtyLeaves'], 'Command': ['m_commandLine'], 'DescriptionBlock': ['m_dependents', 'm_targetName', 'm_pMakefile'], 'Makefile': ['m_targets'], 'FastFileInfo': [], 'FileTime': ['m_fileTime']},
 'ghost_fields': {'FastFileInfo': ['name: QString']}, 'types': {'InternalType': 'quint64', 'FileTime::InternalType': 'quint64'}, 'exceptions': {'Exception': 'QString', 'FileException': ''}}
//@endcfg
pub type Node = DependencyGraph_Node;
pub type DG = DependencyGraph;
pub open spec fn nd(h: HeapV) -> Map<u64, Node> { h.DependencyGraph_Node }
pub open spec fn with_nodes(h: HeapV, h2: HeapV) -> bool { h2 == (HeapV { DependencyGraph_Node: h2.DependencyGraph_Node, ..h }) }
pub open spec fn kids(h: HeapV, n: u64) -> Seq<u64> { nd(h)[n].children@ }
pub open spec fn pars(h: HeapV, n: u64) -> Seq<u64> { nd(h)[n].parents@ }
// ---- the graph: exactly one node for every target in it, the links mirror each other
pub open spec fn node_of(h: HeapV, g: DG, n: u64) -> bool { n != 0 && g.m_nodeContainer@.dom().contains(nd(h)[n].target) && g.m_nodeContainer@[nd(h)[n].target] == n }
pub open spec fn blocks(h: HeapV, g: DG) -> bool { forall|t: u64| #[trigger] g.m_nodeContainer@.dom().contains(t) ==> block_ok(h, t) && ({ let n = g.m_nodeContainer@[t]; nd(h).dom().contains(n) && n != 0 && nd(h)[n].target == t }) }
pub open spec fn block_ok(h: HeapV, t: u64) -> bool { t != 0 && h.DescriptionBlock.dom().contains(t) && mk_ok(h, h.DescriptionBlock[t].m_pMakefile) }
pub open spec fn mk_ok(h: HeapV, m: u64) -> bool { m != 0 && h.Makefile.dom().contains(m) && forall|n: Str| h.Makefile[m].m_targets@.dom().contains(n) && #[trigger] h.Makefile[m].m_targets@[n] != 0 ==> h.DescriptionBlock.dom().contains(h.Makefile[m].m_targets@[n]) && h.DescriptionBlock[h.Makefile[m].m_targets@[n]].m_pMakefile == m }
pub open spec fn nodes(h: HeapV, g: DG) -> bool { forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> node_of(h, g, n) }
pub open spec fn kid_ok(h: HeapV, n: u64, c: u64) -> bool { c != 0 && nd(h).dom().contains(c) && pars(h, c).contains(n) }
pub open spec fn par_ok(h: HeapV, n: u64, p: u64) -> bool { p != 0 && nd(h).dom().contains(p) && kids(h, p).contains(n) }
pub open spec fn links(h: HeapV) -> bool {
    (forall|n: u64, c: u64| nd(h).dom().contains(n) && #[trigger] kids(h, n).contains(c) ==> kid_ok(h, n, c))
    && (forall|n: u64, p: u64| nd(h).dom().contains(n) && #[trigger] pars(h, n).contains(p) ==> par_ok(h, n, p))
    && (forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> kids(h, n).no_duplicates() && pars(h, n).no_duplicates())
}
// only a target without unfinished prerequisites is being built
pub open spec fn idle(h: HeapV) -> bool { forall|n: u64| #[trigger] nd(h).dom().contains(n) && nd(h)[n].state == 1 ==> kids(h, n).len() == 0 }
pub open spec fn base(h: HeapV, g: DG) -> bool { blocks(h, g) && nodes(h, g) && links(h) && idle(h) && g.m_leaves@.no_duplicates() }
// the ready set
pub open spec fn ready(h: HeapV, g: DG) -> bool { forall|n: u64| #[trigger] g.m_leaves@.contains(n) <==> nd(h).dom().contains(n) && kids(h, n).len() == 0 }
pub open spec fn graph_ok(h: HeapV, g: DG) -> bool { base(h, g) && ready(h, g) }
pub open spec fn add_once(d: Seq<u64>, x: u64) -> Seq<u64> { if d.contains(x) { d } else { d.push(x) } }
pub uninterp spec fn found(t: u64) -> bool;      // t was found up to date
pub uninterp spec fn fexists(name: Str) -> bool;
pub uninterp spec fn dir_path(mk: u64) -> Str;
pub open spec fn frame_blocks(h: HeapV, h2: HeapV) -> bool {
    h2 == (HeapV { DescriptionBlock: h2.DescriptionBlock, ..h }) && h2.DescriptionBlock.dom() == h.DescriptionBlock.dom()
    && forall|t: u64| #[trigger] h.DescriptionBlock.dom().contains(t) ==> h2.DescriptionBlock[t].m_pMakefile == h.DescriptionBlock[t].m_pMakefile
}
//@extern Makefile::dirPath
//@flags heap
    requires this != 0, old(hp)@.Makefile.dom().contains(this),
    ensures final(hp)@ == old(hp)@, res@ == dir_path(this)
//@endfn
//@extern FastFileInfo::FastFileInfo
    ensures final(this).name@ == fileName@
//@endfn
//@extern FastFileInfo::exists
    ensures res == fexists(this.name@)
//@endfn
//@extern DependencyGraph::isTargetUpToDate
//@flags heap
    requires block_ok(old(hp)@, target),
    ensures frame_blocks(old(hp)@, final(hp)@), *final(this) == *old(this), res ==> found(target),
//@endfn
//@extern DependencyGraph::displayNodeBuildInfo
//@flags heap
    ensures final(hp)@ == old(hp)@, *final(this) == *old(this)
//@endfn
//@extern Makefile::applyInferenceRules(L)
//@flags heap throws
    requires mk_ok(old(hp)@, this), forall|i: int| 0 <= i < targets@.len() ==> block_ok(old(hp)@, #[trigger] targets@[i]),
    ensures ({ let h = old(hp)@; let h2 = final(hp)@; h2 == (HeapV { DescriptionBlock: h2.DescriptionBlock, Makefile: h2.Makefile, ..h }) && frame_blocks(HeapV { Makefile: h2.Makefile, ..h }, h2)
        && h2.Makefile.dom() == h.Makefile.dom() && forall|m: u64| #[trigger] h.Makefile.dom().contains(m) ==> h2.Makefile[m].m_targets == h.Makefile[m].m_targets }),
//@endfn

// ---- building it
pub open spec fn made(h: HeapV, h2: HeapV, p: u64, c: u64, t: u64) -> bool {
    with_nodes(h, h2) && nd(h2).dom() == nd(h).dom().insert(c)
    && nd(h2)[c].target == t && nd(h2)[c].state == 0 && kids(h2, c).len() == 0 && pars(h2, c) == (if p == 0 { Seq::<u64>::empty() } else { seq![p] })
    && forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> nd(h2)[n].target == nd(h)[n].target && nd(h2)[n].state == nd(h)[n].state && nd(h2)[n].parents == nd(h)[n].parents
        && kids(h2, n) == (if p != 0 && n == p { add_once(kids(h, n), c) } else { kids(h, n) })
}
pub open spec fn linked(h: HeapV, h2: HeapV, p: u64, c: u64) -> bool {
    with_nodes(h, h2) && nd(h2).dom() == nd(h).dom()
    && forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> nd(h2)[n].target == nd(h)[n].target && nd(h2)[n].state == nd(h)[n].state
        && kids(h2, n) == (if n == p { add_once(kids(h, n), c) } else { kids(h, n) }) && pars(h2, n) == (if n == c { add_once(pars(h, n), p) } else { pars(h, n) })
        && (n != p ==> nd(h2)[n].children == nd(h)[n].children) && (n != c ==> nd(h2)[n].parents == nd(h)[n].parents)
}
pub proof fn add_once_has(d: Seq<u64>, x: u64) ensures forall|y: u64| #[trigger] add_once(d, x).contains(y) <==> d.contains(y) || y == x, d.no_duplicates() ==> add_once(d, x).no_duplicates(), add_once(d, x).len() > 0
{ if !d.contains(x) { assert(d.push(x)[d.len() as int] == x); assert forall|y: u64| d.contains(y) implies d.push(x).contains(y) by { let i = choose|i: int| 0 <= i < d.len() && d[i] == y; assert(d.push(x)[i] == y); } } }
//@fn DependencyGraph::addEdge
//@flags heap
    requires parent != 0, child != 0, nd(old(hp)@).dom().contains(parent), nd(old(hp)@).dom().contains(child),
    ensures *final(this) == *old(this), linked(old(hp)@, final(hp)@, parent, child),
//@exit
    proof { assert(nd(hp@).dom() =~= nd(old(hp)@).dom()); }
//@endfn
//@fn DependencyGraph::createNode
//@flags heap
    requires parent != 0 ==> nd(old(hp)@).dom().contains(parent),
    ensures res != 0, !nd(old(hp)@).dom().contains(res),
        *final(this) == (DependencyGraph { m_nodeContainer: final(this).m_nodeContainer, ..*old(this) }), final(this).m_nodeContainer@ == old(this).m_nodeContainer@.insert(target, res),
        made(old(hp)@, final(hp)@, parent, res, target),
//@entry
    let ghost h0 = hp@; let ghost mut hm = hp@;
//@call addEdge 1
    proof { hm = hp@; assert(nd(hm).dom().contains(node)); }
//@exit
    proof { if parent != 0 { assert forall|n: u64| #[trigger] nd(h0).dom().contains(n) implies nd(hp@)[n].target == nd(h0)[n].target && nd(hp@)[n].state == nd(h0)[n].state && nd(hp@)[n].parents == nd(h0)[n].parents && kids(hp@, n) == (if n == parent { add_once(kids(h0, n), node) } else { kids(h0, n) }) by { assert(nd(hm).dom().contains(n)); } }
        if parent != 0 { add_once_has(kids(old(hp)@, parent), node); } assert(nd(hp@).dom() =~= nd(old(hp)@).dom().insert(node)); if parent != 0 { assert(pars(hp@, node) =~= seq![parent]); } else { assert(pars(hp@, node) =~= Seq::empty()); } }
//@endfn

// ---- finishing a target
pub open spec fn removed_first(s: Seq<u64>, x: u64) -> Seq<u64> { if s.contains(x) { s.remove(s.index_of(x)) } else { s } }
pub open spec fn cut(h: HeapV, h2: HeapV, node: u64) -> bool {
    with_nodes(h, h2) && nd(h2).dom() == nd(h).dom().remove(node)
    && forall|n: u64| #[trigger] nd(h2).dom().contains(n) ==> nd(h2)[n].target == nd(h)[n].target && nd(h2)[n].state == nd(h)[n].state && pars(h2, n) == pars(h, n)
        && (forall|c: u64| #[trigger] kids(h2, n).contains(c) <==> kids(h, n).contains(c) && c != node)
}
pub proof fn pushed(s: Seq<u64>, x: u64) ensures forall|y: u64| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x, s.no_duplicates() && !s.contains(x) ==> s.push(x).no_duplicates()
{ assert(s.push(x)[s.len() as int] == x); assert forall|y: u64| s.contains(y) implies s.push(x).contains(y) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); } }
pub proof fn filter_out(s: Seq<u64>, x: u64) ensures ({ let f = rem_all(s, x); (forall|y: u64| #[trigger] f.contains(y) <==> s.contains(y) && y != x) && (s.no_duplicates() ==> f.no_duplicates()) })
    decreases s.len()
{ broadcast use {vstd::seq::group_seq_axioms}; reveal(Seq::filter); let f = rem_all(s, x);
    if s.len() > 0 { let d = s.drop_last(); filter_out(d, x); let e = rem_all(d, x); let l = s.last(); assert(f == if l != x { e.push(l) } else { e }); pushed(d, l); assert(d.push(l) =~= s); if l != x { pushed(e, l); }
        if s.no_duplicates() { assert(d.no_duplicates()); if d.contains(l) { let i = choose|i: int| 0 <= i < d.len() && d[i] == l; assert(s[i] == s[s.len() - 1]); } } } }
pub proof fn removed_at(s: Seq<u64>, i: int) requires 0 <= i < s.len(), s.no_duplicates()
    ensures forall|y: u64| #[trigger] s.remove(i).contains(y) <==> s.contains(y) && y != s[i], s.remove(i).no_duplicates()
{ let r = s.remove(i); assert forall|y: u64| #[trigger] r.contains(y) <==> s.contains(y) && y != s[i] by {
    if r.contains(y) { let j = choose|j: int| 0 <= j < r.len() && r[j] == y; let k = if j < i { j } else { j + 1 }; assert(s[k] == y); }
    if s.contains(y) && y != s[i] { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; let j = if k < i { k } else { k - 1 }; assert(r[j] == y); } } }
pub proof fn one_less(s: Seq<u64>, i: int) requires 0 <= i < s.len() ensures s.remove(i).len() == s.len() - 1 { }
pub proof fn took(s: Seq<u64>, i: int, p: u64) requires 0 <= i < s.len(), s[i] == p ensures forall|y: u64| #[trigger] s.take(i + 1).contains(y) <==> s.take(i).contains(y) || y == p
{ pushed(s.take(i), p); assert(s.take(i + 1) =~= s.take(i).push(p)); }
// the first k parents of the finished node have let go of it
pub open spec fn cutting(h: HeapV, h2: HeapV, node: u64, k: int) -> bool {
    with_nodes(h, h2) && nd(h2).dom() == nd(h).dom()
    && forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> nd(h2)[n].target == nd(h)[n].target && nd(h2)[n].state == nd(h)[n].state && nd(h2)[n].parents == nd(h)[n].parents
        && (if pars(h, node).take(k).contains(n) { kids(h2, n).no_duplicates() && forall|c: u64| #[trigger] kids(h2, n).contains(c) <==> kids(h, n).contains(c) && c != node } else { nd(h2)[n].children == nd(h)[n].children })
}
//@fn DependencyGraph::deleteNode
//@flags heap
    requires node != 0, nd(old(hp)@).dom().contains(node),
    ensures final(hp)@ == (HeapV { DependencyGraph_Node: nd(old(hp)@).remove(node), ..old(hp)@ }), final(this).m_nodeContainer@ == old(this).m_nodeContainer@.remove(nd(old(hp)@)[node].target),
        *final(this) == (DependencyGraph { m_nodeContainer: final(this).m_nodeContainer, m_root: (if node == old(this).m_root { 0 } else { old(this).m_root }), ..*old(this) }),
//@endfn

// what is left of a graph after some targets are finished: each of them had no unfinished prerequisite at that time
pub open spec fn shrunk(h: HeapV, h2: HeapV, x: u64) -> bool {
    (forall|n: u64| #[trigger] nd(h2).dom().contains(n) ==> nd(h).dom().contains(n) && nd(h2)[n].target == nd(h)[n].target && (n != x ==> nd(h2)[n].state == nd(h)[n].state) && pars(h2, n) == pars(h, n)
        && forall|c: u64| #[trigger] kids(h2, n).contains(c) <==> kids(h, n).contains(c) && nd(h2).dom().contains(c))
    && (forall|n: u64, c: u64| nd(h).dom().contains(n) && !nd(h2).dom().contains(n) && #[trigger] kids(h, n).contains(c) ==> !nd(h2).dom().contains(c))
}
pub proof fn after_cut(h0: HeapV, g0: DG, h1: HeapV, h2: HeapV, g2: DG, node: u64)
    requires graph_ok(h0, g0), node != 0, nd(h0).dom().contains(node), kids(h0, node).len() == 0, cutting(h0, h1, node, pars(h0, node).len() as int),
        h2 == (HeapV { DependencyGraph_Node: nd(h1).remove(node), ..h1 }), g2.m_nodeContainer@ == g0.m_nodeContainer@.remove(nd(h0)[node].target), g2.m_leaves@.no_duplicates(),
        forall|n: u64| #[trigger] g2.m_leaves@.contains(n) <==> n != node && nd(h0).dom().contains(n) && kids(h1, n).len() == 0,
    ensures graph_ok(h2, g2), cut(h0, h2, node), forall|n: u64| #[trigger] g0.m_leaves@.contains(n) && n != node ==> g2.m_leaves@.contains(n)
{
    let ps = pars(h0, node); assert(ps.take(ps.len() as int) =~= ps); let t = nd(h0)[node].target; assert(node_of(h0, g0, node));
    assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) implies nd(h2)[n].target == nd(h0)[n].target && nd(h2)[n].state == nd(h0)[n].state && pars(h2, n) == pars(h0, n)
        && (forall|c: u64| #[trigger] kids(h2, n).contains(c) <==> kids(h0, n).contains(c) && c != node) by {
        assert(nd(h0).dom().contains(n)); assert(nd(h2)[n] == nd(h1)[n]);
        if !ps.contains(n) && kids(h0, n).contains(node) { assert(kid_ok(h0, n, node)); }
    }
    assert(cut(h0, h2, node));
    assert forall|u: u64| #[trigger] g2.m_nodeContainer@.dom().contains(u) implies block_ok(h2, u) && ({ let n = g2.m_nodeContainer@[u]; nd(h2).dom().contains(n) && n != 0 && nd(h2)[n].target == u }) by { assert(g0.m_nodeContainer@.dom().contains(u)); assert(block_ok(h0, u)); }
    assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) implies node_of(h2, g2, n) by { assert(node_of(h0, g0, n)); }
    assert forall|n: u64, c: u64| nd(h2).dom().contains(n) && #[trigger] kids(h2, n).contains(c) implies kid_ok(h2, n, c) by { assert(kids(h0, n).contains(c)); assert(kid_ok(h0, n, c)); assert(nd(h2).dom().contains(c)); }
    assert forall|n: u64, p: u64| nd(h2).dom().contains(n) && #[trigger] pars(h2, n).contains(p) implies par_ok(h2, n, p) by { assert(pars(h0, n).contains(p)); assert(par_ok(h0, n, p)); if p == node { assert(kids(h0, node).contains(n)); } assert(nd(h2).dom().contains(p)); }
    assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) implies kids(h2, n).no_duplicates() && pars(h2, n).no_duplicates() by { assert(nd(h0).dom().contains(n)); assert(nd(h2)[n] == nd(h1)[n]); }
    assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) && nd(h2)[n].state == 1 implies kids(h2, n).len() == 0 by { assert(nd(h0).dom().contains(n)); assert(kids(h0, n).len() == 0); if kids(h2, n).len() > 0 { assert(kids(h2, n).contains(kids(h2, n)[0])); } }
    assert(ready(h2, g2));
    assert forall|n: u64| #[trigger] g0.m_leaves@.contains(n) && n != node implies g2.m_leaves@.contains(n) by { if kids(h2, n).len() > 0 { assert(kids(h2, n).contains(kids(h2, n)[0])); } }
}
//@fn DependencyGraph::removeLeaf(P:Node)
//@flags heap
    requires graph_ok(old(hp)@, *old(this)), node != 0, nd(old(hp)@).dom().contains(node), kids(old(hp)@, node).len() == 0,
    ensures graph_ok(final(hp)@, *final(this)), cut(old(hp)@, final(hp)@, node), final(this).m_nodeContainer@ == old(this).m_nodeContainer@.remove(nd(old(hp)@)[node].target),
        // a target becomes ready only by this
        forall|n: u64| #[trigger] old(this).m_leaves@.contains(n) && n != node ==> final(this).m_leaves@.contains(n),
        shrunk(old(hp)@, final(hp)@, 0), final(this).m_root == (if node == old(this).m_root { 0 } else { old(this).m_root }),
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost g0 = *this; let ghost ps = pars(h0, node); let ghost mut h1 = h0; let ghost mut g1 = g0;
    proof { filter_out(g0.m_leaves@, node); }
//@loop 1
    invariant 0 <= fe1_i <= ps.len(), fe1_c@ == ps, cutting(h0, hp@, node, fe1_i as int), *this == (DependencyGraph { m_leaves: this.m_leaves, m_bDirtyLeaves: this.m_bDirtyLeaves, ..g0 }),
        forall|n: u64| #[trigger] this.m_leaves@.contains(n) <==> n != node && nd(h0).dom().contains(n) && kids(hp@, n).len() == 0, this.m_leaves@.no_duplicates(),
    decreases ps.len() - fe1_i
//@body 1
    proof { h1 = hp@; g1 = *this; let p = ps[fe1_i as int]; assert(ps.contains(p)); assert(par_ok(h0, node, p)); assert(kids(h1, p) == kids(h0, p)); }
//@end 1
    proof { let p = ps[fe1_i as int]; assert(nd(hp@).dom() =~= nd(h0).dom()); took(ps, fe1_i as int, p);
        let a = kids(h0, p); let b = kids(hp@, p);
        let i = choose|i: int| 0 <= i < a.len() && a[i] == node && b == a.remove(i); removed_at(a, i); assert(a.contains(node)); one_less(a, i);
        assert forall|n: u64| #[trigger] this.m_leaves@.contains(n) <==> n != node && nd(h0).dom().contains(n) && kids(hp@, n).len() == 0 by { if b.len() == 0 { let l = g1.m_leaves@; assert(this.m_leaves@ == l.push(p)); pushed(l, p); } }
        if b.len() == 0 { assert(!g1.m_leaves@.contains(p)); pushed(g1.m_leaves@, p); }
    }
//@after 1
    proof { h1 = hp@; g1 = *this; }
//@exit
    proof { after_cut(h0, g0, h1, hp@, *this, node); }
//@endfn

//@fn DependencyGraph::removeLeaf(P:DescriptionBlock)
//@flags heap
    requires graph_ok(old(hp)@, *old(this)), old(this).m_nodeContainer@.dom().contains(target) ==> kids(old(hp)@, old(this).m_nodeContainer@[target]).len() == 0,
    ensures graph_ok(final(hp)@, *final(this)), final(this).m_nodeContainer@ == old(this).m_nodeContainer@.remove(target), shrunk(old(hp)@, final(hp)@, 0),
        !old(this).m_nodeContainer@.dom().contains(target) ==> final(hp)@ == old(hp)@ && *final(this) == *old(this),
        old(this).m_nodeContainer@.dom().contains(target) ==> cut(old(hp)@, final(hp)@, old(this).m_nodeContainer@[target]),
//@entry
    proof { axiom_qdefault(); }
//@exit
    proof { if !old(this).m_nodeContainer@.dom().contains(target) { assert(old(this).m_nodeContainer@.remove(target) =~= old(this).m_nodeContainer@); } }
//@endfn
//@fn DependencyGraph::isEmpty
    ensures res == (this.m_nodeContainer@.dom() =~= Set::<u64>::empty())
//@endfn
//@fn DependencyGraph::isUnbuildable
//@flags heap
    requires this.m_nodeContainer@.dom().contains(target), blocks(old(hp)@, *this),
    ensures final(hp)@ == old(hp)@, res == (nd(old(hp)@)[this.m_nodeContainer@[target]].state == 2)
//@endfn

// ---- everything that needs a failed target is left unbuilt, and nothing else
pub open spec fn up(h: HeapV, n: u64, m: u64, k: nat) -> bool decreases k { if k == 0 { pars(h, n).contains(m) } else { exists|p: u64| #[trigger] pars(h, n).contains(p) && up(h, p, m, (k - 1) as nat) } }
pub open spec fn above(h: HeapV, n: u64, m: u64) -> bool { exists|k: nat| #[trigger] up(h, n, m, k) }
pub open spec fn same_links(h: HeapV, h2: HeapV) -> bool { with_nodes(h, h2) && nd(h2).dom() == nd(h).dom() && forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> nd(h2)[n] == (Node { state: nd(h2)[n].state, ..nd(h)[n] }) }
pub proof fn up_same(h: HeapV, h2: HeapV, n: u64, m: u64, k: nat)
    requires same_links(h, h2), links(h), nd(h).dom().contains(n)
    ensures up(h, n, m, k) == up(h2, n, m, k)
    decreases k
{ if k > 0 {
    if up(h, n, m, k) { let p = choose|p: u64| #[trigger] pars(h, n).contains(p) && up(h, p, m, (k - 1) as nat); assert(par_ok(h, n, p)); up_same(h, h2, p, m, (k - 1) as nat); assert(pars(h2, n).contains(p)); }
    if up(h2, n, m, k) { let p = choose|p: u64| #[trigger] pars(h2, n).contains(p) && up(h2, p, m, (k - 1) as nat); assert(pars(h, n).contains(p)); assert(par_ok(h, n, p)); up_same(h, h2, p, m, (k - 1) as nat); }
} }
pub proof fn above_same(h: HeapV, h2: HeapV, n: u64)
    requires same_links(h, h2), links(h), nd(h).dom().contains(n)
    ensures forall|m: u64| above(h, n, m) == above(h2, n, m)
{ assert forall|m: u64| above(h, n, m) == above(h2, n, m) by {
    if above(h, n, m) { let k = choose|k: nat| #[trigger] up(h, n, m, k); up_same(h, h2, n, m, k); }
    if above(h2, n, m) { let k = choose|k: nat| #[trigger] up(h2, n, m, k); up_same(h, h2, n, m, k); } } }
pub open spec fn via(h: HeapV, p: u64, m: u64) -> bool { p == m || above(h, p, m) }
pub open spec fn some_via(h: HeapV, n: u64, m: u64, i: int) -> bool { exists|j: int| 0 <= j < i && via(h, #[trigger] pars(h, n)[j], m) }
pub proof fn above_via(h: HeapV, n: u64) ensures forall|m: u64| above(h, n, m) == some_via(h, n, m, pars(h, n).len() as int)
{ let ps = pars(h, n); assert forall|m: u64| above(h, n, m) == some_via(h, n, m, ps.len() as int) by {
    if above(h, n, m) { let k = choose|k: nat| #[trigger] up(h, n, m, k); let p = if k == 0 { m } else { choose|p: u64| #[trigger] ps.contains(p) && up(h, p, m, (k - 1) as nat) }; assert(ps.contains(p)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p; assert(via(h, ps[j], m)); }
    if some_via(h, n, m, ps.len() as int) { let j = choose|j: int| 0 <= j < ps.len() && via(h, #[trigger] ps[j], m); assert(ps.contains(ps[j])); if ps[j] == m { assert(up(h, n, m, 0)); } else { let k = choose|k: nat| #[trigger] up(h, ps[j], m, k); assert(up(h, n, m, k + 1)); } }
} }
//@fn DependencyGraph::markParentsRecursivlyUnbuildable(P:Node)
//@flags heap
    requires links(old(hp)@), idle(old(hp)@), node != 0, nd(old(hp)@).dom().contains(node),
    ensures same_links(old(hp)@, final(hp)@), links(final(hp)@), idle(final(hp)@),
        forall|m: u64| #[trigger] nd(old(hp)@).dom().contains(m) ==> nd(final(hp)@)[m].state == (if above(old(hp)@, node, m) { 2 } else { nd(old(hp)@)[m].state }),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost ps = pars(h0, node); let ghost mut h1 = h0; let ghost mut h2 = h0;
//@loop 1
    invariant 0 <= fe1_i <= ps.len(), fe1_c@ == ps, same_links(h0, hp@), links(hp@), idle(hp@),
        forall|m: u64| #[trigger] nd(h0).dom().contains(m) ==> nd(hp@)[m].state == (if some_via(h0, node, m, fe1_i as int) { 2 } else { nd(h0)[m].state }),
    decreases ps.len() - fe1_i
//@body 1
    proof { h1 = hp@; let p = ps[fe1_i as int]; assert(ps.contains(p)); assert(par_ok(h0, node, p)); }
//@call markParentsRecursivlyUnbuildable 1
    proof { h2 = hp@; assert(nd(h2).dom() =~= nd(h0).dom()); let p = ps[fe1_i as int]; assert(kids(h0, p).contains(node)); states_only(h1, h2, p); above_same(h0, h2, p); }
//@end 1
    proof {
        let i = fe1_i as int; let p = ps[i];
        assert forall|m: u64| #[trigger] nd(h0).dom().contains(m) implies nd(hp@)[m].state == (if some_via(h0, node, m, i + 1) { 2 } else { nd(h0)[m].state }) by {
            assert(nd(h2).dom().contains(m)); assert(nd(h1).dom().contains(m));
            if some_via(h0, node, m, i) { let j = choose|j: int| 0 <= j < i && via(h0, #[trigger] pars(h0, node)[j], m); assert(some_via(h0, node, m, i + 1)); }
            if via(h0, p, m) { assert(via(h0, pars(h0, node)[i], m)); }
            if some_via(h0, node, m, i + 1) { let j = choose|j: int| 0 <= j < i + 1 && via(h0, #[trigger] pars(h0, node)[j], m); if j < i { assert(some_via(h0, node, m, i)); } }
        }
        assert(same_links(h0, hp@)) by { assert forall|n: u64| #[trigger] nd(h0).dom().contains(n) implies nd(hp@)[n] == (Node { state: nd(hp@)[n].state, ..nd(h0)[n] }) by { assert(nd(h2).dom().contains(n)); assert(nd(h1).dom().contains(n)); } }
    }
//@exit
    proof { above_via(h0, node); }
//@endfn
pub proof fn states_only(h: HeapV, h2: HeapV, p: u64)
    requires links(h), idle(h), same_links(h, h2), nd(h).dom().contains(p), kids(h, p).len() > 0, forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> nd(h2)[n].state == nd(h)[n].state || n == p && nd(h2)[n].state == 2
    ensures links(h2), idle(h2)
{
    assert forall|n: u64, c: u64| nd(h2).dom().contains(n) && #[trigger] kids(h2, n).contains(c) implies kid_ok(h2, n, c) by { assert(nd(h).dom().contains(n)); assert(kids(h, n).contains(c)); assert(kid_ok(h, n, c)); }
    assert forall|n: u64, c: u64| nd(h2).dom().contains(n) && #[trigger] pars(h2, n).contains(c) implies par_ok(h2, n, c) by { assert(nd(h).dom().contains(n)); assert(pars(h, n).contains(c)); assert(par_ok(h, n, c)); }
    assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) implies kids(h2, n).no_duplicates() && pars(h2, n).no_duplicates() by { assert(nd(h).dom().contains(n)); }
    assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) && nd(h2)[n].state == 1 implies kids(h2, n).len() == 0 by { assert(nd(h).dom().contains(n)); }
}

// ---- handing out
pub open spec fn mild(h: HeapV, h2: HeapV) -> bool {
    nd(h2) == nd(h) && h2.DescriptionBlock.dom() == h.DescriptionBlock.dom() && h2.Makefile.dom() == h.Makefile.dom()
    && (forall|t: u64| #[trigger] h.DescriptionBlock.dom().contains(t) ==> h2.DescriptionBlock[t].m_pMakefile == h.DescriptionBlock[t].m_pMakefile)
    && (forall|m: u64| #[trigger] h.Makefile.dom().contains(m) ==> h2.Makefile[m].m_targets == h.Makefile[m].m_targets)
}
pub proof fn mild_keeps(h: HeapV, h2: HeapV, g: DG)
    requires mild(h, h2)
    ensures graph_ok(h, g) ==> graph_ok(h2, g), forall|t: u64| block_ok(h, t) ==> block_ok(h2, t), forall|m: u64| mk_ok(h, m) ==> mk_ok(h2, m)
{
    assert forall|m: u64| mk_ok(h, m) implies mk_ok(h2, m) by { assert(h2.Makefile[m].m_targets == h.Makefile[m].m_targets);
        assert forall|n: Str| h2.Makefile[m].m_targets@.dom().contains(n) && #[trigger] h2.Makefile[m].m_targets@[n] != 0 implies h2.DescriptionBlock.dom().contains(h2.Makefile[m].m_targets@[n]) && h2.DescriptionBlock[h2.Makefile[m].m_targets@[n]].m_pMakefile == m by { assert(h.Makefile[m].m_targets@[n] != 0); } }
    assert forall|t: u64| block_ok(h, t) implies block_ok(h2, t) by { assert(h.DescriptionBlock.dom().contains(t)); assert(mk_ok(h, h.DescriptionBlock[t].m_pMakefile)); }
    if graph_ok(h, g) {
        assert forall|t: u64| #[trigger] g.m_nodeContainer@.dom().contains(t) implies block_ok(h2, t) && ({ let n = g.m_nodeContainer@[t]; nd(h2).dom().contains(n) && n != 0 && nd(h2)[n].target == t }) by { assert(block_ok(h, t)); }
        assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) implies node_of(h2, g, n) by { assert(node_of(h, g, n)); }
        assert forall|n: u64, c: u64| nd(h2).dom().contains(n) && #[trigger] kids(h2, n).contains(c) implies kid_ok(h2, n, c) by { assert(kids(h, n).contains(c)); assert(kid_ok(h, n, c)); }
        assert forall|n: u64, c: u64| nd(h2).dom().contains(n) && #[trigger] pars(h2, n).contains(c) implies par_ok(h2, n, c) by { assert(pars(h, n).contains(c)); assert(par_ok(h, n, c)); }
        assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) implies kids(h2, n).no_duplicates() && pars(h2, n).no_duplicates() by { assert(nd(h).dom().contains(n)); }
        assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) && nd(h2)[n].state == 1 implies kids(h2, n).len() == 0 by { assert(nd(h).dom().contains(n)); }
        assert(ready(h2, g));
    }
}
pub proof fn mild_then(h: HeapV, h1: HeapV, h2: HeapV) requires mild(h, h1), mild(h1, h2) ensures mild(h, h2)
{ assert forall|t: u64| #[trigger] h.DescriptionBlock.dom().contains(t) implies h2.DescriptionBlock[t].m_pMakefile == h.DescriptionBlock[t].m_pMakefile by { assert(h1.DescriptionBlock.dom().contains(t)); }
  assert forall|m: u64| #[trigger] h.Makefile.dom().contains(m) implies h2.Makefile[m].m_targets == h.Makefile[m].m_targets by { assert(h1.Makefile.dom().contains(m)); } }
pub open spec fn all_found(h: HeapV, h2: HeapV) -> bool { forall|n: u64| #[trigger] nd(h).dom().contains(n) && !nd(h2).dom().contains(n) ==> found(nd(h)[n].target) && nd(h)[n].state != 1 }
pub open spec fn thinned(h: HeapV, h2: HeapV) -> bool { shrunk(h, h2, 0) && all_found(h, h2) }
pub proof fn thin_self(h: HeapV) requires links(h) ensures thinned(h, h)
{ assert forall|n: u64| #[trigger] nd(h).dom().contains(n) implies (forall|c: u64| #[trigger] kids(h, n).contains(c) ==> nd(h).dom().contains(c)) by { assert forall|c: u64| #[trigger] kids(h, n).contains(c) implies nd(h).dom().contains(c) by { assert(kid_ok(h, n, c)); } } }
pub proof fn thin_mild(h: HeapV, h1: HeapV, h2: HeapV) requires thinned(h, h1), mild(h1, h2) ensures thinned(h, h2)
{
    assert forall|m: u64| #[trigger] nd(h2).dom().contains(m) implies nd(h).dom().contains(m) && nd(h2)[m].target == nd(h)[m].target && (m != 0 ==> nd(h2)[m].state == nd(h)[m].state) && pars(h2, m) == pars(h, m)
        && (forall|c: u64| #[trigger] kids(h2, m).contains(c) <==> kids(h, m).contains(c) && nd(h2).dom().contains(c)) by { assert(nd(h1).dom().contains(m)); assert forall|c: u64| #[trigger] kids(h2, m).contains(c) <==> kids(h, m).contains(c) && nd(h2).dom().contains(c) by { assert(kids(h1, m).contains(c) <==> kids(h, m).contains(c) && nd(h1).dom().contains(c)); } }
}
pub proof fn thin_cut(h: HeapV, h1: HeapV, h2: HeapV, n: u64)
    requires thinned(h, h1), links(h1), shrunk(h1, h2, 0), n != 0, nd(h1).dom().contains(n), nd(h2).dom() == nd(h1).dom().remove(n), found(nd(h1)[n].target), nd(h1)[n].state != 1
    ensures thinned(h, h2)
{
    assert forall|m: u64| #[trigger] nd(h2).dom().contains(m) implies nd(h).dom().contains(m) && nd(h2)[m].target == nd(h)[m].target && (m != 0 ==> nd(h2)[m].state == nd(h)[m].state) && pars(h2, m) == pars(h, m)
        && (forall|c: u64| #[trigger] kids(h2, m).contains(c) <==> kids(h, m).contains(c) && nd(h2).dom().contains(c)) by { assert(nd(h1).dom().contains(m));
            assert forall|c: u64| #[trigger] kids(h2, m).contains(c) <==> kids(h, m).contains(c) && nd(h2).dom().contains(c) by { assert(kids(h2, m).contains(c) <==> kids(h1, m).contains(c) && nd(h2).dom().contains(c)); assert(kids(h1, m).contains(c) <==> kids(h, m).contains(c) && nd(h1).dom().contains(c)); } }
    assert forall|a: u64, c: u64| nd(h).dom().contains(a) && !nd(h2).dom().contains(a) && #[trigger] kids(h, a).contains(c) implies !nd(h2).dom().contains(c) by {
        if nd(h1).dom().contains(a) { assert(a == n); if nd(h2).dom().contains(c) { assert(kids(h1, a).contains(c)); assert(!nd(h2).dom().contains(c)); } } else { assert(!nd(h1).dom().contains(c)); } }
    assert forall|m: u64| #[trigger] nd(h).dom().contains(m) && !nd(h2).dom().contains(m) implies found(nd(h)[m].target) && nd(h)[m].state != 1 by { if nd(h1).dom().contains(m) { assert(m == n); } }
}
//@fn DependencyGraph::findAvailableTarget
//@flags heap throws
    requires graph_ok(old(hp)@, *old(this)),
    ensures graph_ok(final(hp)@, *final(this)),
        // whatever left the graph was not running, and was found up to date, after everything it needs
        all_found(old(hp)@, final(hp)@),
        res is Err ==> shrunk(old(hp)@, final(hp)@, 0),
        res matches Ok(t) ==> if t == 0 { shrunk(old(hp)@, final(hp)@, 0) && forall|n: u64| #[trigger] nd(final(hp)@).dom().contains(n) && kids(final(hp)@, n).len() == 0 ==> nd(final(hp)@)[n].state == 1 }
            else { let n = final(this).m_nodeContainer@[t]; final(this).m_nodeContainer@.dom().contains(t) && n != 0 && shrunk(old(hp)@, final(hp)@, n) && kids(final(hp)@, n).len() == 0
                // not handed out before, and remembered now
                && nd(old(hp)@)[n].state != 1 && nd(final(hp)@)[n].state == (if nd(old(hp)@)[n].state == 2 { 2i32 } else { 1i32 }) },
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost mut h1 = h0; let ghost mut g1 = *this; let ghost mut h2 = h0; let ghost mut nn: int = 0; let ghost mut u: Seq<u64> = Seq::empty(); let ghost mut g2 = *this; let ghost mut h3 = h0; let ghost mut g3 = *this; let ghost mut h4 = h0;
    proof { thin_self(h0); }
//@loop 1
    invariant graph_ok(hp@, *this), thinned(h0, hp@), upToDateNodes@.len() == 0,
    decreases this.m_nodeContainer@.dom().len() * 2 + if this.m_bDirtyLeaves { 1int } else { 0int }
//@body 1
    proof { h1 = hp@; g1 = *this; nn = this.m_nodeContainer@.dom().len() as int; }
//@before 2
    proof { g2 = *this; }
//@loop 2
    invariant 0 <= fe2_i <= fe2_c@.len(), fe2_c == g2.m_leaves, *this == g2, mild(h1, hp@), upToDateNodes@.no_duplicates(),
        forall|n: u64| #[trigger] upToDateNodes@.contains(n) ==> fe2_c@.take(fe2_i as int).contains(n) && found(nd(h1)[n].target) && nd(h1)[n].state != 1,
    decreases fe2_c@.len() - fe2_i
//@body 2
    proof { h2 = hp@; u = upToDateNodes@; let n = fe2_c@[fe2_i as int]; assert(g2.m_leaves@.contains(n)); assert(g1.m_leaves@.contains(n)); assert(node_of(h1, g1, n)); mild_keeps(h1, h2, g1); assert(block_ok(h1, nd(h1)[n].target)); }
//@end 2
    proof { let n = fe2_c@[fe2_i as int]; took(fe2_c@, fe2_i as int, n); mild_then(h1, h2, hp@); pushed(u, n);
        if fe2_c@.take(fe2_i as int).contains(n) { let j = choose|j: int| 0 <= j < fe2_i && fe2_c@.take(fe2_i as int)[j] == n; assert(fe2_c@[j] == n); } }
//@after 2
    proof { h2 = hp@; u = upToDateNodes@; mild_keeps(h1, h2, g1); thin_mild(h0, h1, h2); assert(graph_ok(h2, g2)); assert(fe2_c@.take(fe2_c@.len() as int) =~= fe2_c@); assert forall|j: int| 0 <= j < u.len() implies g2.m_leaves@.contains(#[trigger] u[j]) by { assert(u.contains(u[j])); } }
//@loop 3
    invariant 0 <= fe3_i <= u.len(), fe3_c@ == u, graph_ok(hp@, *this), thinned(h0, hp@), this.m_nodeContainer@.dom().len() + fe3_i == nn, fe3_i == 0 ==> !this.m_bDirtyLeaves,
        forall|n: u64| #[trigger] nd(hp@).dom().contains(n) ==> nd(hp@)[n].target == nd(h1)[n].target && nd(hp@)[n].state == nd(h1)[n].state, upToDateNodes@ == u,
        forall|j: int| fe3_i <= j < u.len() ==> this.m_leaves@.contains(#[trigger] u[j]),
    decreases u.len() - fe3_i
//@body 3
    proof { h2 = hp@; let n = u[fe3_i as int]; assert(u.contains(n)); assert(this.m_leaves@.contains(n)); assert(node_of(h2, *this, n)); assert(this.m_nodeContainer@.dom().contains(nd(h2)[n].target)); }
//@end 3
    proof { let n = u[fe3_i as int]; thin_cut(h0, h2, hp@, n); assert forall|m: u64| #[trigger] nd(hp@).dom().contains(m) implies nd(hp@)[m].target == nd(h1)[m].target && nd(hp@)[m].state == nd(h1)[m].state by { assert(nd(h2).dom().contains(m)); } }
//@before 4
    proof { h3 = hp@; g3 = *this; }
//@loop 4
    invariant 0 <= fe4_i <= fe4_c@.len(), fe4_c == g3.m_leaves, *this == g3, hp@ == h3, graph_ok(h3, g3), thinned(h0, h3),
        forall|m: u64| #[trigger] makefileSet@.contains(m) ==> mk_ok(h3, m),
        forall|m: u64, i: int| multiHash@.dom().contains(m) && 0 <= i < multiHash@[m].len() ==> block_ok(h3, #[trigger] multiHash@[m][i]),
    decreases fe4_c@.len() - fe4_i
//@body 4
    proof { let n = fe4_c@[fe4_i as int]; assert(g3.m_leaves@.contains(n)); assert(node_of(h3, g3, n)); assert(block_ok(h3, nd(h3)[n].target)); }
//@loop 5
    invariant 0 <= fe5_i <= fe5_c@.len(), *this == g3, mild(h3, hp@), graph_ok(hp@, g3), forall|m: u64| #[trigger] makefileSet@.contains(m) ==> mk_ok(h3, m), forall|x: u64| #[trigger] makefileSet@.contains(x) <==> fe5_c@.contains(x),
    decreases fe5_c@.len() - fe5_i
//@body 5
    proof { h2 = hp@; mild_keeps(h3, h2, g3); let m = fe5_c@[fe5_i as int]; assert(fe5_c@.contains(m)); assert(makefileSet@.contains(m));
        if multiHash@.dom().contains(m) { let s = multiHash@[m]; assert forall|i: int| 0 <= i < s.len() implies block_ok(h2, #[trigger] s.reverse()[i]) by { assert(block_ok(h3, s[s.len() - 1 - i])); } } }
//@post applyInferenceRules 1
    proof { ruled(h2, hp@); mild_then(h3, h2, hp@); mild_keeps(h2, hp@, g3); }
//@before 6
    proof { h4 = hp@; thin_mild(h0, h3, h4); }
//@loop 6
    invariant 0 <= fe6_i <= fe6_c@.len(), fe6_c == g3.m_leaves, *this == g3, hp@ == h4, graph_ok(h4, g3), thinned(h0, h4), forall|i: int| 0 <= i < fe6_i ==> nd(h4)[#[trigger] fe6_c@[i]].state == 1,
    decreases fe6_c@.len() - fe6_i
//@body 6
    proof { let n = fe6_c@[fe6_i as int]; assert(g3.m_leaves@.contains(n)); assert(node_of(h4, g3, n)); assert(block_ok(h4, nd(h4)[n].target)); }
//@after 6
    proof { assert forall|n: u64| #[trigger] nd(h4).dom().contains(n) && kids(h4, n).len() == 0 implies nd(h4)[n].state == 1 by { assert(g3.m_leaves@.contains(n)); let i = choose|i: int| 0 <= i < fe6_c@.len() && fe6_c@[i] == n; assert(fe6_c@[i] == n); } }
//@exit
    proof { if this.m_leaves@.len() == 0 { assert forall|n: u64| #[trigger] nd(hp@).dom().contains(n) implies kids(hp@, n).len() > 0 by { if kids(hp@, n).len() == 0 { assert(this.m_leaves@.contains(n)); } } } }
//@endfn
pub proof fn ruled(h: HeapV, h2: HeapV)
    requires h2 == (HeapV { DescriptionBlock: h2.DescriptionBlock, Makefile: h2.Makefile, ..h }), frame_blocks(HeapV { Makefile: h2.Makefile, ..h }, h2), h2.Makefile.dom() == h.Makefile.dom(), forall|m: u64| #[trigger] h.Makefile.dom().contains(m) ==> h2.Makefile[m].m_targets == h.Makefile[m].m_targets
    ensures mild(h, h2)
{ }

// ---- which targets a target needs
pub open spec fn lookup(m: Map<Str, u64>, name: Str) -> u64 {
    let l = uc_lower(name); let s = subst_c(l, 47, 92);
    if m.dom().contains(l) && m[l] != 0 { m[l] } else if m.dom().contains(s) { m[s] } else { 0 }
}
//@fn Makefile::target
//@flags heap
    requires this != 0, old(hp)@.Makefile.dom().contains(this)
    ensures final(hp)@ == old(hp)@, res == lookup(old(hp)@.Makefile[this].m_targets@, name@),
        mk_ok(old(hp)@, this) && res != 0 ==> block_ok(old(hp)@, res)
//@entry
    proof { axiom_qdefault(); if mk_ok(hp@, this) { let m = hp@.Makefile[this].m_targets@; let l = uc_lower(name@); let s = subst_c(l, 47, 92); assert(m.dom().contains(l) && m[l] != 0 ==> hp@.DescriptionBlock.dom().contains(m[l])); assert(m.dom().contains(s) && m[s] != 0 ==> hp@.DescriptionBlock.dom().contains(m[s])); } }
//@endfn
pub open spec fn deps(h: HeapV, t: u64) -> Seq<Str> { h.DescriptionBlock[t].m_dependents@ }
pub open spec fn dep_of(h: HeapV, t: u64, i: int) -> u64 {
    let mk = h.DescriptionBlock[t].m_pMakefile; let m = h.Makefile[mk].m_targets@; let d = deps(h, t)[i]; let r = lookup(m, d);
    if r != 0 { r } else { lookup(m, dir_path(mk) + seq![dir_sep()] + d) }
}
pub open spec fn needs_one(h: HeapV, t: u64, u: u64, i: int) -> bool { u != 0 && exists|j: int| 0 <= j < i && #[trigger] dep_of(h, t, j) == u }
pub open spec fn needs(h: HeapV, t: u64, u: u64) -> bool { needs_one(h, t, u, deps(h, t).len() as int) }
pub open spec fn path(h: HeapV, t: u64, u: u64, k: nat) -> bool decreases k { if k == 0 { t == u } else { exists|v: u64| #[trigger] needs(h, t, v) && path(h, v, u, (k - 1) as nat) } }
// u is t or something t needs, directly or not
pub open spec fn reach(h: HeapV, t: u64, u: u64) -> bool { exists|k: nat| #[trigger] path(h, t, u, k) }
pub proof fn reach_self(h: HeapV, t: u64) ensures reach(h, t, t) { assert(path(h, t, t, 0)); }
pub proof fn reach_step(h: HeapV, t: u64, v: u64, u: u64) requires needs(h, t, v), reach(h, v, u) ensures reach(h, t, u) { let k = choose|k: nat| #[trigger] path(h, v, u, k); assert(path(h, t, u, k + 1)); }
pub proof fn path_ext(h: HeapV, t: u64, v: u64, u: u64, k: nat) requires path(h, t, v, k), needs(h, v, u) ensures path(h, t, u, k + 1) decreases k
{ if k == 0 { assert(path(h, u, u, 0)); } else { let w = choose|w: u64| #[trigger] needs(h, t, w) && path(h, w, v, (k - 1) as nat); path_ext(h, w, v, u, (k - 1) as nat); } }
pub proof fn path_same(h: HeapV, h2: HeapV, t: u64, u: u64, k: nat) requires with_nodes(h, h2) ensures path(h, t, u, k) == path(h2, t, u, k) decreases k
{ if k > 0 { assert forall|v: u64| needs(h, t, v) == needs(h2, t, v) by { needs_same(h, h2, t, v); } assert forall|v: u64| #[trigger] path(h, v, u, (k - 1) as nat) == path(h2, v, u, (k - 1) as nat) by { path_same(h, h2, v, u, (k - 1) as nat); }
    if path(h, t, u, k) { let v = choose|v: u64| #[trigger] needs(h, t, v) && path(h, v, u, (k - 1) as nat); needs_same(h, h2, t, v); path_same(h, h2, v, u, (k - 1) as nat); assert(needs(h2, t, v)); assert(path(h2, t, u, k)); }
    if path(h2, t, u, k) { let v = choose|v: u64| #[trigger] needs(h2, t, v) && path(h2, v, u, (k - 1) as nat); needs_same(h, h2, t, v); path_same(h, h2, v, u, (k - 1) as nat); assert(needs(h, t, v)); assert(path(h, t, u, k)); } } }
pub proof fn needs_same(h: HeapV, h2: HeapV, t: u64, u: u64) requires with_nodes(h, h2) ensures needs(h, t, u) == needs(h2, t, u), deps(h, t) == deps(h2, t), forall|i: int| dep_of(h, t, i) == dep_of(h2, t, i), forall|i: int| needs_one(h, t, u, i) == needs_one(h2, t, u, i)
{ assert forall|i: int| dep_of(h, t, i) == dep_of(h2, t, i) by {}
  assert forall|i: int| needs_one(h, t, u, i) == needs_one(h2, t, u, i) by { if needs_one(h, t, u, i) { let j = choose|j: int| 0 <= j < i && #[trigger] dep_of(h, t, j) == u; assert(dep_of(h2, t, j) == u); } if needs_one(h2, t, u, i) { let j = choose|j: int| 0 <= j < i && #[trigger] dep_of(h2, t, j) == u; assert(dep_of(h, t, j) == u); } } }
pub proof fn reach_same(h: HeapV, h2: HeapV, t: u64, u: u64) requires with_nodes(h, h2) ensures reach(h, t, u) == reach(h2, t, u)
{ if reach(h, t, u) { let k = choose|k: nat| #[trigger] path(h, t, u, k); path_same(h, h2, t, u, k); } if reach(h2, t, u) { let k = choose|k: nat| #[trigger] path(h2, t, u, k); path_same(h, h2, t, u, k); } }
// ---- building the graph
pub open spec fn kid_for(h: HeapV, n: u64, u: u64) -> bool { exists|c: u64| #[trigger] kids(h, n).contains(c) && nd(h)[c].target == u }
// the first i prerequisites of n are its children, and it has no others
pub open spec fn partly(h: HeapV, n: u64, i: int) -> bool {
    (forall|c: u64| #[trigger] kids(h, n).contains(c) ==> needs_one(h, nd(h)[n].target, nd(h)[c].target, i))
    && (forall|j: int| 0 <= j < i ==> ({ let u = #[trigger] dep_of(h, nd(h)[n].target, j); if u != 0 { kid_for(h, n, u) } else { fexists(deps(h, nd(h)[n].target)[j]) } }))
}
pub open spec fn done(h: HeapV, n: u64) -> bool { partly(h, n, deps(h, nd(h)[n].target).len() as int) }
pub open spec fn fresh(h: HeapV) -> bool { forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> nd(h)[n].state == 0 }
pub open spec fn growing(h: HeapV, g: DG, s: Set<u64>) -> bool {
    base(h, g) && fresh(h) && (forall|n: u64| #[trigger] s.contains(n) ==> nd(h).dom().contains(n))
    && (forall|n: u64| #[trigger] nd(h).dom().contains(n) && !s.contains(n) ==> kids(h, n).len() == 0)
    && (forall|n: u64| #[trigger] g.m_leaves@.contains(n) ==> s.contains(n))
}
// what a visit adds; x is the node whose visit is not over
pub open spec fn grown(h: HeapV, g: DG, s: Set<u64>, h2: HeapV, g2: DG, s2: Set<u64>, x: u64) -> bool {
    growing(h2, g2, s2) && with_nodes(h, h2) && g2.m_root == g.m_root && g2.m_bDirtyLeaves == g.m_bDirtyLeaves
    && (forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> nd(h2).dom().contains(n) && nd(h2)[n].target == nd(h)[n].target)
    && (forall|n: u64| #[trigger] s.contains(n) ==> s2.contains(n) && (n != x ==> kids(h2, n) == kids(h, n)))
    && (forall|n: u64| #[trigger] s2.contains(n) && !s.contains(n) && n != x ==> done(h2, n))
    && (forall|n: u64| #[trigger] nd(h2).dom().contains(n) && !nd(h).dom().contains(n) ==> s2.contains(n))
    && (forall|n: u64| #[trigger] g2.m_leaves@.contains(n) <==> g.m_leaves@.contains(n) || (s2.contains(n) && !s.contains(n) && n != x && kids(h2, n).len() == 0))
}
pub open spec fn from(h: HeapV, h2: HeapV, t: u64) -> bool { forall|n: u64| #[trigger] nd(h2).dom().contains(n) && !nd(h).dom().contains(n) ==> reach(h, t, nd(h2)[n].target) }
pub open spec fn attached(h: HeapV, g: DG, h2: HeapV, g2: DG, n: u64, c: u64, u: u64) -> bool {
    (linked(h, h2, n, c) && g2 == g && nd(h).dom().contains(c) && nd(h)[c].target == u && c != 0)
    || (made(h, h2, n, c, u) && c != 0 && !nd(h).dom().contains(c) && !g.m_nodeContainer@.dom().contains(u) && g2 == (DependencyGraph { m_nodeContainer: g2.m_nodeContainer, ..g }) && g2.m_nodeContainer@ == g.m_nodeContainer@.insert(u, c))
}
pub open spec fn one_more(h: HeapV, h2: HeapV, n: u64, c: u64, u: u64) -> bool {
    with_nodes(h, h2) && nd(h2).dom() == nd(h).dom().insert(c) && nd(h2)[c].target == u
    && (forall|m: u64| #[trigger] nd(h).dom().contains(m) ==> nd(h2)[m].target == nd(h)[m].target && (m != n ==> kids(h2, m) == kids(h, m)))
    && (forall|y: u64| #[trigger] kids(h2, n).contains(y) <==> kids(h, n).contains(y) || y == c)
    && (!nd(h).dom().contains(c) ==> kids(h2, c).len() == 0)
}
#[verifier::spinoff_prover]
pub proof fn attach(h: HeapV, g: DG, s: Set<u64>, h2: HeapV, g2: DG, n: u64, c: u64, u: u64)
    requires growing(h, g, s), s.contains(n), n != 0, attached(h, g, h2, g2, n, c, u), block_ok(h, u)
    ensures growing(h2, g2, s), one_more(h, h2, n, c, u)
{
    add_once_has(kids(h, n), c); add_once_has(pars(h, c), n);
    let new = !nd(h).dom().contains(c);
    assert(nd(h).dom().contains(n));
    assert(nd(h2).dom() =~= nd(h).dom().insert(c));
    assert(one_more(h, h2, n, c, u));
    assert forall|m: u64| #[trigger] nd(h2).dom().contains(m) implies node_of(h2, g2, m) && nd(h2)[m].state == 0 && kids(h2, m).no_duplicates() && pars(h2, m).no_duplicates() by { if nd(h).dom().contains(m) { assert(node_of(h, g, m)); } }
    assert forall|t: u64| #[trigger] g2.m_nodeContainer@.dom().contains(t) implies block_ok(h2, t) && ({ let m = g2.m_nodeContainer@[t]; nd(h2).dom().contains(m) && m != 0 && nd(h2)[m].target == t }) by { if t != u || !new { assert(g.m_nodeContainer@.dom().contains(t)); assert(block_ok(h, t)); } }
    assert forall|a: u64, b: u64| nd(h2).dom().contains(a) && #[trigger] kids(h2, a).contains(b) implies kid_ok(h2, a, b) by { if nd(h).dom().contains(a) { if kids(h, a).contains(b) { assert(kid_ok(h, a, b)); assert(nd(h2).dom().contains(b)); assert(pars(h, b).contains(a)); } else { assert(a == n && b == c); if new { assert(pars(h2, c)[0] == n); } } } }
    assert forall|a: u64, b: u64| nd(h2).dom().contains(a) && #[trigger] pars(h2, a).contains(b) implies par_ok(h2, a, b) by { if nd(h).dom().contains(a) && pars(h, a).contains(b) { assert(par_ok(h, a, b)); assert(nd(h2).dom().contains(b)); } else { assert(a == c && b == n); } }
    assert forall|m: u64| #[trigger] nd(h2).dom().contains(m) && !s.contains(m) implies kids(h2, m).len() == 0 by { }
    assert forall|m: u64| #[trigger] s.contains(m) implies nd(h2).dom().contains(m) by { assert(nd(h).dom().contains(m)); }
}
pub proof fn partly_keep(h: HeapV, h2: HeapV, m: u64, i: int)
    requires with_nodes(h, h2), kids(h2, m) == kids(h, m), nd(h2)[m].target == nd(h)[m].target, forall|c: u64| #[trigger] kids(h, m).contains(c) ==> nd(h2)[c].target == nd(h)[c].target
    ensures partly(h, m, i) ==> partly(h2, m, i), done(h, m) ==> done(h2, m)
{
    let t = nd(h)[m].target; needs_same(h, h2, t, 0);
    assert forall|k: int| partly(h, m, k) implies partly(h2, m, k) by {
        assert forall|c: u64| #[trigger] kids(h2, m).contains(c) implies needs_one(h2, t, nd(h2)[c].target, k) by { needs_same(h, h2, t, nd(h)[c].target); }
        assert forall|j: int| 0 <= j < k implies ({ let u = #[trigger] dep_of(h2, t, j); if u != 0 { kid_for(h2, m, u) } else { fexists(deps(h2, t)[j]) } }) by { let u = dep_of(h, t, j); if u != 0 { assert(kid_for(h, m, u)); let c = choose|c: u64| #[trigger] kids(h, m).contains(c) && nd(h)[c].target == u; assert(kids(h2, m).contains(c)); } }
    }
}
pub proof fn partly_zero(h: HeapV, m: u64) requires kids(h, m).len() == 0 ensures partly(h, m, 0) { }
pub proof fn needs_more(h: HeapV, t: u64, u: u64, i: int) ensures needs_one(h, t, u, i) ==> needs_one(h, t, u, i + 1) { }
// a prerequisite that is a file and no target adds nothing
pub proof fn partly_file(h: HeapV, m: u64, i: int)
    ensures 0 <= i && partly(h, m, i) && dep_of(h, nd(h)[m].target, i) == 0 && fexists(deps(h, nd(h)[m].target)[i]) ==> partly(h, m, i + 1)
{ let t = nd(h)[m].target; if partly(h, m, i) && dep_of(h, t, i) == 0 && fexists(deps(h, t)[i]) && 0 <= i {
    assert forall|c: u64| #[trigger] kids(h, m).contains(c) implies needs_one(h, t, nd(h)[c].target, i + 1) by { needs_more(h, t, nd(h)[c].target, i); }
    assert forall|j: int| 0 <= j < i + 1 implies ({ let u = #[trigger] dep_of(h, t, j); if u != 0 { kid_for(h, m, u) } else { fexists(deps(h, t)[j]) } }) by { if j < i { let u = dep_of(h, t, j); assert(if u != 0 { kid_for(h, m, u) } else { fexists(deps(h, t)[j]) }); } } } }
pub proof fn partly_next(h: HeapV, h2: HeapV, m: u64, c: u64, u: u64, i: int)
    requires one_more(h, h2, m, c, u), links(h), nd(h).dom().contains(m), 0 <= i, partly(h, m, i), u != 0, dep_of(h, nd(h)[m].target, i) == u, nd(h).dom().contains(c) ==> nd(h)[c].target == u
    ensures partly(h2, m, i + 1)
{
    let t = nd(h)[m].target; needs_same(h, h2, t, u); assert(nd(h2)[m].target == t);
    assert forall|y: u64| #[trigger] kids(h2, m).contains(y) implies needs_one(h2, t, nd(h2)[y].target, i + 1) by {
        if y == c { assert(dep_of(h2, t, i) == u); } else { assert(kid_ok(h, m, y)); needs_more(h, t, nd(h)[y].target, i); needs_same(h, h2, t, nd(h)[y].target); } }
    assert forall|j: int| 0 <= j < i + 1 implies ({ let v = #[trigger] dep_of(h2, t, j); if v != 0 { kid_for(h2, m, v) } else { fexists(deps(h2, t)[j]) } }) by {
        if j == i { assert(kids(h2, m).contains(c)); } else { let v = dep_of(h, t, j); if v != 0 { assert(kid_for(h, m, v)); let y = choose|y: u64| #[trigger] kids(h, m).contains(y) && nd(h)[y].target == v; assert(kid_ok(h, m, y)); assert(kids(h2, m).contains(y)); } } }
}
pub proof fn grown_start(h: HeapV, g: DG, s: Set<u64>, n: u64)
    requires growing(h, g, s), nd(h).dom().contains(n), n != 0
    ensures !s.contains(n) ==> grown(h, g, s, h, g, s.insert(n), n) && partly(h, n, 0) && from(h, h, nd(h)[n].target), s.contains(n) ==> grown(h, g, s, h, g, s, 0)
{ if !s.contains(n) { partly_zero(h, n); } }
#[verifier::spinoff_prover]
pub proof fn grown_more(h0: HeapV, g0: DG, s0: Set<u64>, h1: HeapV, g1: DG, s1: Set<u64>, h2: HeapV, g2: DG, h3: HeapV, g3: DG, s3: Set<u64>, n: u64, c: u64, u: u64, i: int)
    requires grown(h0, g0, s0, h1, g1, s1, n), s1.contains(n), n != 0, nd(h0).dom().contains(n), partly(h1, n, i), 0 <= i < deps(h0, nd(h0)[n].target).len(), from(h0, h1, nd(h0)[n].target),
        one_more(h1, h2, n, c, u), growing(h2, g2, s1), g2.m_leaves == g1.m_leaves, g2.m_root == g1.m_root, g2.m_bDirtyLeaves == g1.m_bDirtyLeaves, u != 0, dep_of(h1, nd(h0)[n].target, i) == u, nd(h1).dom().contains(c) ==> nd(h1)[c].target == u,
        grown(h2, g2, s1, h3, g3, s3, 0), s3.contains(c), from(h2, h3, u),
    ensures grown(h0, g0, s0, h3, g3, s3, n), partly(h3, n, i + 1), from(h0, h3, nd(h0)[n].target), s3.contains(n), nd(h3).dom().contains(n), nd(h3)[n].target == nd(h0)[n].target
{
    let t = nd(h0)[n].target;
    assert(nd(h1).dom().contains(n)); assert(nd(h2).dom().contains(n)); assert(nd(h3).dom().contains(n));
    partly_next(h1, h2, n, c, u, i);
    assert forall|y: u64| #[trigger] kids(h2, n).contains(y) implies nd(h3)[y].target == nd(h2)[y].target by { assert(kid_ok(h2, n, y)); }
    partly_keep(h2, h3, n, i + 1);
    assert forall|m: u64| #[trigger] nd(h0).dom().contains(m) implies nd(h3).dom().contains(m) && nd(h3)[m].target == nd(h0)[m].target by { assert(nd(h1).dom().contains(m)); assert(nd(h2).dom().contains(m)); }
    assert forall|m: u64| #[trigger] s0.contains(m) implies s3.contains(m) && (m != n ==> kids(h3, m) == kids(h0, m)) by { assert(s1.contains(m)); assert(nd(h1).dom().contains(m)); }
    assert forall|m: u64| #[trigger] s3.contains(m) && !s0.contains(m) && m != n implies done(h3, m) by {
        if s1.contains(m) { assert(done(h1, m)); assert(nd(h1).dom().contains(m)); assert(nd(h2).dom().contains(m)); assert(kids(h3, m) == kids(h2, m));
            assert forall|y: u64| #[trigger] kids(h1, m).contains(y) implies nd(h3)[y].target == nd(h1)[y].target by { assert(kid_ok(h1, m, y)); assert(nd(h2).dom().contains(y)); }
            partly_keep(h1, h3, m, 0); } }
    assert forall|m: u64| #[trigger] nd(h3).dom().contains(m) && !nd(h0).dom().contains(m) implies s3.contains(m) && reach(h0, t, nd(h3)[m].target) by {
        if nd(h2).dom().contains(m) { if nd(h1).dom().contains(m) { assert(s1.contains(m)); assert(reach(h0, t, nd(h1)[m].target)); } else { assert(m == c); needs_it(h1, t, u, i); reach_self(h0, u); needs_same(h0, h1, t, u); reach_step(h0, t, u, u); } }
        else { assert(reach(h2, u, nd(h3)[m].target)); reach_same(h0, h2, u, nd(h3)[m].target); needs_it(h1, t, u, i); needs_same(h0, h1, t, u); reach_step(h0, t, u, nd(h3)[m].target); } }
    assert forall|m: u64| #[trigger] g3.m_leaves@.contains(m) <==> g0.m_leaves@.contains(m) || (s3.contains(m) && !s0.contains(m) && m != n && kids(h3, m).len() == 0) by {
        let a = g1.m_leaves@.contains(m); assert(g2.m_leaves@.contains(m) == a); if s0.contains(m) { assert(s1.contains(m)); } if s1.contains(m) { assert(nd(h1).dom().contains(m)); if m != n { assert(kids(h3, m) == kids(h1, m)); } } }
}
pub proof fn needs_it(h: HeapV, t: u64, u: u64, i: int) requires 0 <= i < deps(h, t).len(), dep_of(h, t, i) == u, u != 0 ensures needs(h, t, u) { }
pub proof fn grown_end(h0: HeapV, g0: DG, s0: Set<u64>, h: HeapV, g: DG, s: Set<u64>, n: u64, g2: DG)
    requires grown(h0, g0, s0, h, g, s, n), done(h, n), s.contains(n), !s0.contains(n), n != 0, g2 == (DependencyGraph { m_leaves: g2.m_leaves, ..g }), g2.m_leaves@ == (if kids(h, n).len() == 0 { g.m_leaves@.push(n) } else { g.m_leaves@ }), growing(h0, g0, s0)
    ensures grown(h0, g0, s0, h, g2, s, 0)
{ pushed(g.m_leaves@, n); assert(!g0.m_leaves@.contains(n)); assert(!g.m_leaves@.contains(n)); assert forall|m: u64| #[trigger] nd(h).dom().contains(m) implies node_of(h, g2, m) by { assert(node_of(h, g, m)); }
  assert forall|t: u64| #[trigger] g2.m_nodeContainer@.dom().contains(t) implies block_ok(h, t) && ({ let m = g2.m_nodeContainer@[t]; nd(h).dom().contains(m) && m != 0 && nd(h)[m].target == t }) by { assert(g.m_nodeContainer@.dom().contains(t)); } 
  assert forall|m: u64| #[trigger] s0.contains(m) implies m != 0 by { assert(nd(h0).dom().contains(m)); assert(node_of(h0, g0, m)); } 
  assert forall|m: u64| #[trigger] s.contains(m) implies m != 0 by { assert(nd(h).dom().contains(m)); assert(node_of(h, g, m)); } }
//@fn DependencyGraph::internalBuild
//@flags heap
    requires node != 0, nd(old(hp)@).dom().contains(node), growing(old(hp)@, *old(this), old(seen)@),
    ensures grown(old(hp)@, *old(this), old(seen)@, final(hp)@, *final(this), final(seen)@, 0), final(seen)@.contains(node),
        from(old(hp)@, final(hp)@, nd(old(hp)@)[node].target),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost g0 = *this; let ghost s0 = seen@; let ghost t = nd(h0)[node].target; let ghost mut h1 = h0; let ghost mut h2 = h0; let ghost mut g1 = g0; let ghost mut g2 = g0; let ghost mut s1 = s0;
    proof { axiom_qdefault(); broadcast use axiom_qset_fin; assert(node_of(h0, g0, node)); assert(block_ok(h0, t)); if s0.contains(node) { assert(s0.insert(node) =~= s0); } }
//@before 1
    proof { grown_start(h0, g0, s0, node); }
//@loop 1
    invariant 0 <= fe1_i <= fe1_c@.len(), fe1_c@ == deps(h0, t), !s0.contains(node), grown(h0, g0, s0, hp@, *this, seen@, node), seen@.contains(node), nd(hp@).dom().contains(node), nd(hp@)[node].target == t,
        partly(hp@, node, fe1_i as int), from(h0, hp@, t),
    decreases fe1_c@.len() - fe1_i
//@body 1
    proof { h1 = hp@; g1 = *this; s1 = seen@; assert(node_of(h1, g1, node)); assert(block_ok(h1, t)); needs_same(h0, h1, t, 0); partly_file(h1, node, fe1_i as int); }
//@call addEdge 1
    proof { assert(g1.m_nodeContainer@.dom().contains(dependent)); assert(nd(h1).dom().contains(child)); }
//@call internalBuild 1
    proof { h2 = hp@; g2 = *this; attach(h1, g1, s1, h2, g2, node, child, dependent); }
//@post internalBuild 1
    proof { grown_more(h0, g0, s0, h1, g1, s1, h2, g2, hp@, *this, seen@, node, child, dependent, fe1_i as int); }
//@after 1
    proof { h1 = hp@; g1 = *this; s1 = seen@; }
//@exit
    proof { if !s0.contains(node) { grown_end(h0, g0, s0, h1, g1, s1, node, *this); } else { grown_start(h0, g0, s0, node); } }
//@endfn
// the graph of a target: one node for everything it needs, directly or not, and nothing else
pub open spec fn graph_of(h: HeapV, g: DG, t: u64) -> bool {
    graph_ok(h, g) && fresh(h) && (forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> done(h, n))
    && forall|u: u64| #[trigger] g.m_nodeContainer@.dom().contains(u) <==> reach(h, t, u)
}
pub proof fn path_in(h: HeapV, g: DG, t: u64, u: u64, k: nat)
    requires base(h, g), forall|n: u64| #[trigger] nd(h).dom().contains(n) ==> done(h, n), g.m_nodeContainer@.dom().contains(t), path(h, t, u, k)
    ensures g.m_nodeContainer@.dom().contains(u)
    decreases k
{ if k > 0 { let v = choose|v: u64| #[trigger] needs(h, t, v) && path(h, v, u, (k - 1) as nat); let n = g.m_nodeContainer@[t]; assert(nd(h).dom().contains(n)); assert(done(h, n)); let j = choose|j: int| 0 <= j < deps(h, t).len() && #[trigger] dep_of(h, t, j) == v; assert(kid_for(h, n, v));
    let c = choose|c: u64| #[trigger] kids(h, n).contains(c) && nd(h)[c].target == v; assert(kid_ok(h, n, c)); assert(node_of(h, g, c)); path_in(h, g, v, u, (k - 1) as nat); } }
//@fn DependencyGraph::build
//@flags heap
    requires block_ok(old(hp)@, target), nd(old(hp)@).dom() =~= Set::<u64>::empty(), old(this).m_nodeContainer@.dom() =~= Set::<u64>::empty(), old(this).m_leaves@.len() == 0,
    ensures graph_of(final(hp)@, *final(this), target), final(this).m_bDirtyLeaves, final(this).m_nodeContainer@.dom().contains(target) && final(this).m_root == final(this).m_nodeContainer@[target], with_nodes(old(hp)@, final(hp)@),
//@entry
    let ghost h0 = hp@; let ghost mut h1 = h0; let ghost mut g1 = *this;
//@call internalBuild 1
    proof { h1 = hp@; g1 = *this; assert(nd(h1).dom() =~= Set::<u64>::empty().insert(this.m_root)); assert(nd(h1).dom().contains(this.m_root)); assert(g1.m_nodeContainer@.dom() =~= Set::<u64>::empty().insert(target)); }
//@exit
    proof { let h = hp@; let g = *this; let r = g1.m_root;
        assert forall|n: u64| #[trigger] nd(h).dom().contains(n) implies done(h, n) && seen@.contains(n) by { if nd(h1).dom().contains(n) { assert(n == r); } assert(seen@.contains(n)); assert(node_of(h, g, n)); }
        assert forall|n: u64| #[trigger] g.m_leaves@.contains(n) <==> nd(h).dom().contains(n) && kids(h, n).len() == 0 by { if g.m_leaves@.contains(n) { assert(seen@.contains(n)); } if nd(h).dom().contains(n) { assert(seen@.contains(n)); assert(node_of(h, g, n)); } }
        assert(node_of(h, g, r));
        assert forall|u: u64| #[trigger] g.m_nodeContainer@.dom().contains(u) <==> reach(h, target, u) by {
            if g.m_nodeContainer@.dom().contains(u) { let n = g.m_nodeContainer@[u]; if nd(h1).dom().contains(n) { assert(n == r); reach_self(h, target); } else { assert(reach(h1, target, u)); reach_same(h1, h, target, u); } }
            if reach(h, target, u) { let k = choose|k: nat| #[trigger] path(h, target, u, k); path_in(h, g, target, u, k); } }
    }
//@endfn
// ---- no deadlock: while anything is left there is a target without unfinished prerequisites
pub open spec fn ranked(h: HeapV, rank: Map<u64, nat>) -> bool { forall|n: u64, c: u64| nd(h).dom().contains(n) && #[trigger] kids(h, n).contains(c) ==> rank[c] < rank[n] }
pub proof fn some_leaf(h: HeapV, g: DG, rank: Map<u64, nat>, n: u64)
    requires graph_ok(h, g), ranked(h, rank), nd(h).dom().contains(n)
    ensures g.m_leaves@.len() > 0
    decreases rank[n]
{ if kids(h, n).len() == 0 { assert(g.m_leaves@.contains(n)); } else { let c = kids(h, n)[0]; assert(kids(h, n).contains(c)); assert(kid_ok(h, n, c)); some_leaf(h, g, rank, c); } }
// finishing targets keeps the graph acyclic, and everything left still waits for exactly what it waited for, as far as that is unfinished
pub proof fn still_ranked(h: HeapV, h2: HeapV, x: u64, rank: Map<u64, nat>) requires ranked(h, rank), shrunk(h, h2, x) ensures ranked(h2, rank)
{ assert forall|n: u64, c: u64| nd(h2).dom().contains(n) && #[trigger] kids(h2, n).contains(c) implies rank[c] < rank[n] by { assert(kids(h, n).contains(c)); } }
pub proof fn shrunk_then(h: HeapV, h1: HeapV, h2: HeapV, x: u64, y: u64)
    requires shrunk(h, h1, x), shrunk(h1, h2, y), links(h)
    ensures forall|n: u64| #[trigger] nd(h2).dom().contains(n) ==> nd(h).dom().contains(n) && forall|c: u64| #[trigger] kids(h2, n).contains(c) <==> kids(h, n).contains(c) && nd(h2).dom().contains(c),
        // a target that left did so only after everything it needs
        forall|n: u64, c: u64| nd(h).dom().contains(n) && !nd(h2).dom().contains(n) && #[trigger] kids(h, n).contains(c) ==> !nd(h2).dom().contains(c)
{
    assert forall|n: u64| #[trigger] nd(h2).dom().contains(n) implies nd(h).dom().contains(n) && forall|c: u64| #[trigger] kids(h2, n).contains(c) <==> kids(h, n).contains(c) && nd(h2).dom().contains(c) by {
        assert(nd(h1).dom().contains(n));
        assert forall|c: u64| #[trigger] kids(h2, n).contains(c) <==> kids(h, n).contains(c) && nd(h2).dom().contains(c) by { assert(kids(h1, n).contains(c) <==> kids(h, n).contains(c) && nd(h1).dom().contains(c)); if nd(h2).dom().contains(c) { assert(nd(h1).dom().contains(c)); } } }
    assert forall|n: u64, c: u64| nd(h).dom().contains(n) && !nd(h2).dom().contains(n) && #[trigger] kids(h, n).contains(c) implies !nd(h2).dom().contains(c) by {
        if nd(h1).dom().contains(n) { if nd(h1).dom().contains(c) { assert(kids(h1, n).contains(c)); } else if nd(h2).dom().contains(c) { assert(nd(h1).dom().contains(c)); } }
        else if nd(h2).dom().contains(c) { assert(nd(h1).dom().contains(c)); } }
}
//@fn DependencyGraph::clear
//@flags heap
    requires blocks(old(hp)@, *old(this)), nodes(old(hp)@, *old(this)),
    ensures final(this).m_nodeContainer@.dom() =~= Set::<u64>::empty(), final(this).m_leaves@.len() == 0, nd(final(hp)@).dom() =~= Set::<u64>::empty(), with_nodes(old(hp)@, final(hp)@), final(this).m_root == 0,
//@exit
    proof { assert forall|n: u64| !nd(hp@).dom().contains(n) by { if nd(old(hp)@).dom().contains(n) { assert(node_of(old(hp)@, *old(this), n)); } } }
//@endfn
