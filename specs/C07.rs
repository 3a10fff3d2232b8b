//@sources src/jomlib/parser.cpp src/jomlib/makefile.cpp
//@cfg
{'structs': ['Parser', 'Command'], 'heap': ['DescriptionBlock', 'Makefile'],
 'fields': {'Command': ['m_commandLine'], 'Parser': ['m_makefile'], 'DescriptionBlock': ['m_dependents', 'm_bVisitedByCycleCheck', 'm_bNoCyclesRootedHere', 'm_targetName'], 'Makefile': ['m_targets']}, 'exceptions': {'Exception': 'QString', 'FileException': ''}}
//@endcfg
//@fn Makefile::target
//@flags heap
    requires this != 0, old(hp)@.Makefile.dom().contains(this)
    ensures final(hp)@ == old(hp)@, res == lookup(old(hp)@.Makefile[this].m_targets@, name@)
//@endfn
pub open spec fn lookup(m: Map<Str, u64>, name: Str) -> u64 {
    let l = uc_lower(name); let s = subst_c(l, 47, 92);
    if m.dom().contains(l) && m[l] != 0 { m[l] } else if m.dom().contains(s) { m[s] } else { 0 }
}
// ---- the dependency graph: for every target the targets its dependents name
pub type G = Map<u64, Seq<u64>>;
pub open spec fn graph(h: HeapV, mk: u64) -> G { let m = h.Makefile[mk].m_targets@; h.DescriptionBlock.map_values(|b: DescriptionBlock| Seq::new(b.m_dependents@.len(), |i: int| lookup(m, b.m_dependents@[i]))) }
pub open spec fn edge(g: G, a: u64, b: u64) -> bool { g.dom().contains(a) && b != 0 && g[a].contains(b) }
pub open spec fn path(g: G, a: u64, b: u64, n: nat) -> bool decreases n { if n == 0 { a == b } else { exists|c: u64| #[trigger] edge(g, a, c) && path(g, c, b, (n - 1) as nat) } }
pub open spec fn needs(g: G, a: u64, b: u64) -> bool { exists|n: nat| n > 0 && #[trigger] path(g, a, b, n) }
pub open spec fn reach(g: G, a: u64, b: u64) -> bool { exists|n: nat| #[trigger] path(g, a, b, n) }
pub open spec fn on_cycle(g: G, a: u64) -> bool { needs(g, a, a) }
pub open spec fn cyclic(g: G, t: u64) -> bool { exists|x: u64| #[trigger] reach(g, t, x) && on_cycle(g, x) }
pub open spec fn visited(h: HeapV) -> Set<u64> { h.DescriptionBlock.dom().filter(|p: u64| h.DescriptionBlock[p].m_bVisitedByCycleCheck) }
pub open spec fn clean(h: HeapV) -> Set<u64> { h.DescriptionBlock.dom().filter(|p: u64| h.DescriptionBlock[p].m_bNoCyclesRootedHere) }
pub open spec fn closed(g: G, s: Set<u64>) -> bool { forall|a: u64, b: u64| s.contains(a) && #[trigger] edge(g, a, b) ==> s.contains(b) }
pub open spec fn acyclic(g: G, s: Set<u64>) -> bool { forall|a: u64| s.contains(a) ==> !#[trigger] on_cycle(g, a) }
pub open spec fn valid(h: HeapV, mk: u64) -> bool {
    mk != 0 && h.Makefile.dom().contains(mk) && h.DescriptionBlock.dom().finite()
    && forall|n: Str| h.Makefile[mk].m_targets@.dom().contains(n) && #[trigger] h.Makefile[mk].m_targets@[n] != 0 ==> h.DescriptionBlock.dom().contains(h.Makefile[mk].m_targets@[n])
}
pub open spec fn only_flags(h: HeapV, h2: HeapV) -> bool {
    h2 == (HeapV { DescriptionBlock: h2.DescriptionBlock, ..h }) && h2.DescriptionBlock.dom() == h.DescriptionBlock.dom()
    && forall|p: u64| h.DescriptionBlock.dom().contains(p) ==> (#[trigger] h2.DescriptionBlock[p]).m_dependents == h.DescriptionBlock[p].m_dependents && h2.DescriptionBlock[p].m_targetName == h.DescriptionBlock[p].m_targetName
}
pub open spec fn state_ok(h: HeapV, mk: u64) -> bool { let g = graph(h, mk); valid(h, mk) && closed(g, clean(h)) && acyclic(g, clean(h)) && clean(h).disjoint(visited(h)) }
pub proof fn same_graph(h: HeapV, h2: HeapV, mk: u64) requires only_flags(h, h2) ensures graph(h, mk) == graph(h2, mk) { assert(graph(h, mk) =~= graph(h2, mk)); }
pub proof fn path_push(g: G, a: u64, b: u64, c: u64, n: nat)
    requires path(g, a, b, n), edge(g, b, c)
    ensures path(g, a, c, n + 1)
    decreases n
{ if n == 0 { assert(path(g, c, c, 0)); assert(edge(g, a, c)); } else { let d = choose|d: u64| #[trigger] edge(g, a, d) && path(g, d, b, (n - 1) as nat); path_push(g, d, b, c, (n - 1) as nat); assert(edge(g, a, d)); } }
pub proof fn stays(g: G, s: Set<u64>, a: u64, b: u64, n: nat)
    requires closed(g, s), s.contains(a), path(g, a, b, n)
    ensures s.contains(b)
    decreases n
{ if n > 0 { let c = choose|c: u64| #[trigger] edge(g, a, c) && path(g, c, b, (n - 1) as nat); stays(g, s, c, b, (n - 1) as nat); } }
pub proof fn not_cyclic(g: G, s: Set<u64>, t: u64)
    requires closed(g, s), acyclic(g, s), s.contains(t)
    ensures !cyclic(g, t)
{ if cyclic(g, t) { let x = choose|x: u64| #[trigger] reach(g, t, x) && on_cycle(g, x); let n = choose|n: nat| #[trigger] path(g, t, x, n); stays(g, s, t, x, n); } }
pub proof fn child_cyclic(g: G, t: u64, c: u64)
    requires edge(g, t, c), cyclic(g, c)
    ensures cyclic(g, t)
{ let x = choose|x: u64| #[trigger] reach(g, c, x) && on_cycle(g, x); let n = choose|n: nat| #[trigger] path(g, c, x, n); assert(path(g, t, x, n + 1)); assert(reach(g, t, x)); }
// adding a target all of whose dependents are clean
pub proof fn add_clean(g: G, s: Set<u64>, t: u64)
    requires closed(g, s), acyclic(g, s), !s.contains(t), forall|c: u64| #[trigger] edge(g, t, c) ==> s.contains(c)
    ensures closed(g, s.insert(t)), acyclic(g, s.insert(t))
{
    if on_cycle(g, t) { let n = choose|n: nat| n > 0 && #[trigger] path(g, t, t, n); let c = choose|c: u64| #[trigger] edge(g, t, c) && path(g, c, t, (n - 1) as nat); stays(g, s, c, t, (n - 1) as nat); }
}
//@fn Parser::checkForCycles
//@flags heap throws
    requires state_ok(old(hp)@, old(this).m_makefile), target != 0 ==> old(hp)@.DescriptionBlock.dom().contains(target),
        target != 0 ==> forall|v: u64| #[trigger] visited(old(hp)@).contains(v) ==> needs(graph(old(hp)@, old(this).m_makefile), v, target),
    ensures *final(this) == *old(this), only_flags(old(hp)@, final(hp)@),
        // rejected exactly when a target it needs depends on itself
        target == 0 ==> res is Ok, target != 0 ==> (res is Err <==> cyclic(graph(old(hp)@, old(this).m_makefile), target)),
        res is Ok ==> state_ok(final(hp)@, old(this).m_makefile) && visited(final(hp)@) == visited(old(hp)@) && clean(old(hp)@).subset_of(clean(final(hp)@)) && (target != 0 ==> clean(final(hp)@).contains(target)),
    decreases old(hp)@.DescriptionBlock.dom().difference(visited(old(hp)@)).len()
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost mk = this.m_makefile; let ghost g = graph(h0, mk); let ghost mut h3 = h0; let ghost mut fin = false; let ghost d = h0.DescriptionBlock[target].m_dependents@;
    proof {
        assert(path(g, target, target, 0)); assert(reach(g, target, target));
        if target != 0 { if clean(h0).contains(target) { not_cyclic(g, clean(h0), target); } if visited(h0).contains(target) { assert(on_cycle(g, target)); } }
    }
//@before 1
    let ghost h1 = hp@; let ghost v1 = visited(h0).insert(target);
    proof {
        assert(h1.DescriptionBlock.dom() =~= h0.DescriptionBlock.dom()); same_graph(h0, h1, mk); assert(clean(h1) =~= clean(h0)); assert(visited(h1) =~= v1); assert(g[target].len() == d.len());
        let dom = h0.DescriptionBlock.dom(); assert(dom.difference(v1) =~= dom.difference(visited(h0)).remove(target)); assert(dom.difference(visited(h0)).contains(target));
    }
//@loop 1
    invariant 0 <= i <= d.len(), *this == *old(this), only_flags(h0, hp@), state_ok(hp@, mk), visited(hp@) == v1, clean(h0).subset_of(clean(hp@)),
        forall|j: int| i <= j < d.len() && g[target][j] != 0 ==> clean(hp@).contains(#[trigger] g[target][j]),
    decreases i
//@body 1
    let ghost h2 = hp@;
    proof { same_graph(h0, h2, mk); assert(h2.DescriptionBlock[target].m_dependents@ == d); }
//@call checkForCycles 1
    proof {
        assert(dep == g[target][i as int]);
        if dep != 0 {
            assert(edge(g, target, dep)); assert(hp@.DescriptionBlock.dom().contains(dep));
            assert forall|v: u64| #[trigger] visited(hp@).contains(v) implies needs(g, v, dep) by {
                if v == target { assert(path(g, dep, dep, 0)); assert(path(g, target, dep, 1)); }
                else { let n = choose|n: nat| n > 0 && #[trigger] path(g, v, target, n); path_push(g, v, target, dep, n); }
            }
            if cyclic(g, dep) { child_cyclic(g, target, dep); }
        }
    }
//@end 1
    proof { same_graph(h2, hp@, mk); }
//@after 1
    proof { h3 = hp@; fin = true; }
    proof {
        same_graph(h0, h3, mk);
        assert forall|c: u64| #[trigger] edge(g, target, c) implies clean(h3).contains(c) by { let j = choose|j: int| 0 <= j < g[target].len() && g[target][j] == c; }
        assert(visited(h3).contains(target)); assert(!clean(h3).contains(target));
        add_clean(g, clean(h3), target); not_cyclic(g, clean(h3).insert(target), target);
    }
//@exit
    proof { if fin { assert(hp@.DescriptionBlock =~= h3.DescriptionBlock.insert(target, hp@.DescriptionBlock[target]));
        assert(hp@.DescriptionBlock.dom() =~= h0.DescriptionBlock.dom());
        assert forall|p: u64| visited(hp@).contains(p) == visited(h0).contains(p) by { assert(visited(h3).contains(p) == visited(h0).insert(target).contains(p)); }
        same_graph(h0, hp@, mk); assert(clean(hp@) =~= clean(h3).insert(target));
        assert(visited(hp@) =~= visited(h0)); } }
//@endfn
pub open spec fn below(g: G, t: u64) -> Set<u64> { g.dom().filter(|x: u64| reach(g, t, x)) }
pub open spec fn height(g: G, t: u64) -> int { if t == 0 { 0 } else { (1 + below(g, t).len()) as int } }
pub proof fn height_less(g: G, t: u64, c: u64)
    requires edge(g, t, c), !on_cycle(g, t), t != 0
    ensures height(g, c) < height(g, t)
{
    assert(path(g, t, t, 0)); assert(reach(g, t, t)); assert(below(g, t).contains(t));
    assert forall|x: u64| below(g, c).contains(x) implies below(g, t).contains(x) by { let n = choose|n: nat| #[trigger] path(g, c, x, n); assert(path(g, t, x, n + 1)); }
    if below(g, c).contains(t) { let n = choose|n: nat| #[trigger] path(g, c, t, n); assert(path(g, t, t, n + 1)); assert(false); }
    let s = below(g, t).remove(t); assert(below(g, c).subset_of(s)); vstd::set_lib::lemma_len_subset(below(g, c), s);
}
//@fn Parser::resetCycleChecker
//@flags heap
    requires valid(old(hp)@, old(this).m_makefile), target != 0 ==> old(hp)@.DescriptionBlock.dom().contains(target), acyclic(graph(old(hp)@, old(this).m_makefile), clean(old(hp)@)),
    ensures *final(this) == *old(this), only_flags(old(hp)@, final(hp)@), clean(final(hp)@).subset_of(clean(old(hp)@)), visited(final(hp)@) == visited(old(hp)@), target != 0 ==> !clean(final(hp)@).contains(target),
    decreases height(graph(old(hp)@, old(this).m_makefile), target)
//@attr #[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = hp@; let ghost mk = this.m_makefile; let ghost g = graph(h0, mk); let ghost d = h0.DescriptionBlock[target].m_dependents@;
//@loop 1
    invariant 0 <= i <= d.len(), *this == *old(this), only_flags(h0, hp@), clean(hp@).subset_of(clean(h0)), visited(hp@) == visited(h0),
    decreases i
//@body 1
    proof { same_graph(h0, hp@, mk); assert(hp@.DescriptionBlock[target].m_dependents@ == d); assert(g[target].len() == d.len()); assert(clean(h0).contains(target)); }
//@call resetCycleChecker 1
    proof {
        assert(dep == g[target][i as int]); assert(hp@.DescriptionBlock.dom().contains(target));
        if dep != 0 { assert(edge(g, target, dep)); assert(!on_cycle(g, target)); height_less(g, target, dep); }
    }
//@end 1
    proof { same_graph(h0, hp@, mk); }
//@after 1
    let ghost h3 = hp@;
//@exit
    proof { assert(clean(hp@).subset_of(clean(h0))); assert(hp@.DescriptionBlock.dom() =~= h0.DescriptionBlock.dom());
        assert forall|p: u64| visited(hp@).contains(p) == visited(h0).contains(p) by { } assert(visited(hp@) =~= visited(h0)); }
//@endfn
