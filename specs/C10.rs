//@sources src/jomlib/targetexecutor.cpp:QEventLoop src/jomlib/jobclient.cpp:QSystemSemaphore
//@cfg
{'structs': ['QEventLoop', 'Command', 'FastFileInfo'], 'struct_default': {'QEventLoop': 'nondet_QEventLoop()'}, 'heap': ['TargetExecutor', 'CommandExecutor', 'JobClient', 'DependencyGraph', 'DescriptionBlock', 'Makefile', 'Options'],
 'fields': {'QEventLoop': [], 'Command': [], 'FastFileInfo': [], 'TargetExecutor': ['m_makefile', 'm_depgraph', 'm_pendingTargets', 'm_jobClient', 'm_bAborted', 'm_jobAcquisitionCount', 'm_availableProcesses', 'm_processes', 'm_nextTarget', 'm_allCommandsSuccessfullyExecuted'],
   'CommandExecutor': ['m_pTarget', 'm_active'], 'JobClient': [], 'DependencyGraph': [], 'DescriptionBlock': ['m_commands', 'm_pMakefile', 'm_targetName'], 'Makefile': ['m_options'], 'Options': ['buildAllTargets', 'buildUnrelatedTargetsOnError']},
 'heap_ghost': ['left: Set<u64>', 'marked: Set<u64>', 'handed: Set<u64>', 'failed: Set<u64>', 'ended: Set<u64>', 'above: Map<u64, Set<u64>>', 'any_failed: bool', 'threw: bool'], 'exceptions': {'Exception': 'QString'}}
//@endcfg
pub type H = HeapV;
pub open spec fn te(h: H, e: u64) -> TargetExecutor { h.TargetExecutor[e] }
pub open spec fn procs(h: H, e: u64) -> Seq<u64> { te(h, e).m_processes@ }
pub open spec fn avail(h: H, e: u64) -> Seq<u64> { te(h, e).m_availableProcesses@ }
pub open spec fn aborted(h: H, e: u64) -> bool { te(h, e).m_bAborted }
pub open spec fn next(h: H, e: u64) -> u64 { te(h, e).m_nextTarget }
pub open spec fn tgt(h: H, p: u64) -> u64 { h.CommandExecutor[p].m_pTarget }
// /K
pub open spec fn keep(h: H, e: u64) -> bool { h.Options[h.Makefile[te(h, e).m_makefile].m_options].buildUnrelatedTargetsOnError }
pub open spec fn only(h: H, e: u64) -> bool { h.TargetExecutor.dom() =~= set![e] }
pub open spec fn wf(h: H, e: u64) -> bool {
    only(h, e) && e != 0 && te(h, e).m_makefile != 0 && h.Makefile.dom().contains(te(h, e).m_makefile) && h.Makefile[te(h, e).m_makefile].m_options != 0 && h.Options.dom().contains(h.Makefile[te(h, e).m_makefile].m_options)
    && te(h, e).m_jobClient != 0 && te(h, e).m_depgraph != 0
    && (forall|p: u64| #[trigger] procs(h, e).contains(p) ==> p != 0 && h.CommandExecutor.dom().contains(p))
    && avail(h, e).no_duplicates() && procs(h, e).len() <= 0x10000
    && (forall|p: u64| #[trigger] avail(h, e).contains(p) ==> procs(h, e).contains(p))
    && (forall|i: int| 0 <= i < te(h, e).m_pendingTargets@.len() ==> #[trigger] te(h, e).m_pendingTargets@[i] != 0 && h.DescriptionBlock.dom().contains(te(h, e).m_pendingTargets@[i]))
}
// t needs f, which has failed
pub open spec fn spoils(failed: Set<u64>, above: Map<u64, Set<u64>>, f: u64, t: u64) -> bool { failed.contains(f) && above[f].contains(t) }
pub open spec fn doomed(h: H, t: u64) -> bool { exists|f: u64| #[trigger] spoils(h.failed, h.above, f, t) }
// nothing that t needs is left
pub open spec fn ready(h: H, t: u64) -> bool { forall|y: u64| #[trigger] h.left.contains(y) ==> !h.above[y].contains(t) }
pub open spec fn runs(ps: Seq<u64>, av: Seq<u64>, p: u64) -> bool { ps.contains(p) && !av.contains(p) }
pub open spec fn target_ok(h: H, t: u64) -> bool { t != 0 && h.DescriptionBlock.dom().contains(t) && h.left.contains(t) && h.handed.contains(t) && !h.marked.contains(t) && ready(h, t) }
pub open spec fn bound(h: H, e: u64) -> bool { !aborted(h, e) || keep(h, e) }
pub open spec fn judged(h: H, e: u64, x: u64) -> bool { verdicts(h, e, x) && (h.any_failed && !keep(h, e) && !aborted(h, e) ==> x != 0 && h.failed.contains(tgt(h, x))) }
pub open spec fn verdicts(h: H, e: u64, x: u64) -> bool {
    (keep(h, e) ==> forall|f: u64, t: u64| #[trigger] spoils(h.failed, h.above, f, t) && h.left.contains(t) && !(x != 0 && f == tgt(h, x)) ==> h.marked.contains(t))
    && (!keep(h, e) ==> h.marked =~= Set::empty())
    && (aborted(h, e) ==> h.any_failed || h.threw)
    && (te(h, e).m_allCommandsSuccessfullyExecuted && h.any_failed ==> x != 0 && h.failed.contains(tgt(h, x)))
    && (!te(h, e).m_allCommandsSuccessfullyExecuted ==> h.any_failed)
    && (forall|f: u64| #[trigger] h.failed.contains(f) ==> h.any_failed)
}
pub open spec fn working(h: H, e: u64) -> bool {
    bound(h, e) ==> (forall|p: u64| #[trigger] runs(procs(h, e), avail(h, e), p) ==> target_ok(h, tgt(h, p)))
        && (forall|p: u64, q: u64| #[trigger] runs(procs(h, e), avail(h, e), p) && #[trigger] runs(procs(h, e), avail(h, e), q) && p != q ==> tgt(h, p) != tgt(h, q))
}
// x: a running executor whose target has just ended
pub open spec fn core_but(h: H, e: u64, x: u64) -> bool { wf(h, e) && judged(h, e, x) && working(h, e) }
pub open spec fn core(h: H, e: u64) -> bool { core_but(h, e, 0) }
// the target to be started next
pub open spec fn next_ok(h: H, e: u64) -> bool {
    next(h, e) != 0 && !aborted(h, e) ==> target_ok(h, next(h, e)) && (forall|p: u64| #[trigger] runs(procs(h, e), avail(h, e), p) ==> tgt(h, p) != next(h, e))
}
pub open spec fn being_built(ps: Seq<u64>, av: Seq<u64>, ce: Map<u64, CommandExecutor>, t: u64) -> bool { exists|p: u64| #[trigger] runs(ps, av, p) && ce[p].m_pTarget == t }
// whatever was handed out and is not finished, runs or is the next to be started
pub open spec fn all_run(h: H, e: u64) -> bool { !aborted(h, e) ==> forall|t: u64| #[trigger] h.left.contains(t) && h.handed.contains(t) ==> being_built(procs(h, e), avail(h, e), h.CommandExecutor, t) }
pub open spec fn none_lost(h: H, e: u64) -> bool { !aborted(h, e) ==> forall|t: u64| #[trigger] h.left.contains(t) && h.handed.contains(t) ==> (t != 0 && t == next(h, e)) || being_built(procs(h, e), avail(h, e), h.CommandExecutor, t) }
pub open spec fn inv(h: H, e: u64) -> bool { core(h, e) && next_ok(h, e) && none_lost(h, e) }
pub open spec fn running(h: H, e: u64) -> int { procs(h, e).len() - avail(h, e).len() }
pub proof fn none_runs(h: H, e: u64) requires wf(h, e), running(h, e) <= 0 ensures forall|p: u64| !runs(procs(h, e), avail(h, e), p)
{
    let a = avail(h, e).to_set(); let p = procs(h, e).to_set();
    avail(h, e).unique_seq_to_set(); procs(h, e).lemma_cardinality_of_set();
    assert forall|x: u64| a.contains(x) implies p.contains(x) by { assert(avail(h, e).contains(x)); assert(procs(h, e).contains(x)); }
    vstd::set_lib::lemma_len_subset(a, p);
    vstd::set_lib::lemma_subset_equality(a, p);
    assert forall|x: u64| !runs(procs(h, e), avail(h, e), x) by { if procs(h, e).contains(x) { assert(p.contains(x)); assert(a.contains(x)); } }
}
// changes of the graph alone
pub open spec fn same_but_graph(h: H, h2: H) -> bool { h2 == (HeapV { DependencyGraph: h2.DependencyGraph, DescriptionBlock: h2.DescriptionBlock, left: h2.left, marked: h2.marked, handed: h2.handed, threw: h2.threw, ..h }) && h2.DescriptionBlock.dom() == h.DescriptionBlock.dom() }
pub open spec fn settled(h: H, h2: H, e: u64) -> bool { procs(h2, e) == procs(h, e) && only(h2, e) && te(h2, e).m_makefile == te(h, e).m_makefile && h2.Makefile == h.Makefile && h2.Options == h.Options }
pub open spec fn finish_ok(h: H, e: u64, code: int) -> bool {
    (code != 0 <==> h.any_failed || h.threw) && (!aborted(h, e) ==> h.left =~= Set::empty() && te(h, e).m_pendingTargets@.len() == 0 && forall|p: u64| !runs(procs(h, e), avail(h, e), p))
}
//@extern TargetExecutor::finished
//@flags heap
    requires finish_ok(old(hp)@, this, exitCode as int)
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern JobClient::release
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern JobClient::isAcquiring
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern JobClient::asyncAcquire
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern DependencyGraph::findAvailableTarget
//@flags heap throws
    requires this != 0,
    ensures same_but_graph(old(hp)@, final(hp)@), final(hp)@.marked == old(hp)@.marked, final(hp)@.left.subset_of(old(hp)@.left),
        forall|t: u64| #[trigger] old(hp)@.left.contains(t) && old(hp)@.handed.contains(t) && !old(hp)@.marked.contains(t) ==> final(hp)@.left.contains(t),
        res is Err ==> final(hp)@.threw && final(hp)@.handed == old(hp)@.handed, res is Ok ==> final(hp)@.threw == old(hp)@.threw,
        res matches Ok(t) ==> if t == 0 { final(hp)@.handed == old(hp)@.handed && forall|y: u64| #[trigger] final(hp)@.left.contains(y) ==> exists|z: u64| final(hp)@.left.contains(z) && #[trigger] final(hp)@.handed.contains(z) } else {
            final(hp)@.DescriptionBlock.dom().contains(t) && final(hp)@.left.contains(t) && ready(final(hp)@, t) && final(hp)@.handed == old(hp)@.handed.insert(t) && (!old(hp)@.marked.contains(t) ==> !old(hp)@.handed.contains(t)) },
//@endfn
//@extern DependencyGraph::removeLeaf(P:DescriptionBlock)
//@flags heap
    requires this != 0, target != 0, old(hp)@.DescriptionBlock.dom().contains(target), old(hp)@.ended.contains(target) || old(hp)@.DescriptionBlock[target].m_commands@.len() == 0 || old(hp)@.marked.contains(target),
    ensures same_but_graph(old(hp)@, final(hp)@), final(hp)@.marked == old(hp)@.marked, final(hp)@.handed == old(hp)@.handed, final(hp)@.threw == old(hp)@.threw, final(hp)@.left == old(hp)@.left.remove(target)
//@endfn
//@extern DependencyGraph::isUnbuildable
//@flags heap
    requires this != 0,
    ensures final(hp)@ == old(hp)@, res == old(hp)@.marked.contains(target)
//@endfn
//@extern DependencyGraph::markParentsRecursivlyUnbuildable(P:DescriptionBlock)
//@flags heap
    requires this != 0, old(hp)@.left.contains(target),
    ensures same_but_graph(old(hp)@, final(hp)@), final(hp)@.left == old(hp)@.left, final(hp)@.handed == old(hp)@.handed, final(hp)@.threw == old(hp)@.threw, final(hp)@.marked =~= old(hp)@.marked.union(old(hp)@.above[target].intersect(old(hp)@.left))
//@endfn
//@extern DependencyGraph::clear
//@flags heap
    requires this != 0, old(hp)@.left =~= Set::empty() || old(hp)@.any_failed
    ensures same_but_graph(old(hp)@, final(hp)@), final(hp)@.marked == old(hp)@.marked, final(hp)@.threw == old(hp)@.threw, final(hp)@.handed == old(hp)@.handed, final(hp)@.left =~= Set::empty()
//@endfn
//@extern DependencyGraph::build
//@flags heap throws
    requires this != 0, old(hp)@.left =~= Set::empty(),
    ensures final(hp)@ == (HeapV { DependencyGraph: final(hp)@.DependencyGraph, DescriptionBlock: final(hp)@.DescriptionBlock, left: final(hp)@.left, above: final(hp)@.above, marked: Set::empty(), handed: Set::empty(), failed: Set::empty(), ended: Set::empty(), threw: final(hp)@.threw, ..old(hp)@ }), final(hp)@.DescriptionBlock.dom() == old(hp)@.DescriptionBlock.dom(), final(hp)@.threw == (old(hp)@.threw || res is Err)
//@endfn
//@extern Makefile::invalidateTimeStamps
//@flags heap
    ensures same_but_graph(old(hp)@, final(hp)@), final(hp)@.left == old(hp)@.left, final(hp)@.handed == old(hp)@.handed, final(hp)@.threw == old(hp)@.threw, final(hp)@.marked == old(hp)@.marked
//@endfn
//@extern FastFileInfo::clearCacheForFile
    ensures true
//@endfn
//@extern CommandExecutor::setBufferedOutput
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern CommandExecutor::isBufferedOutputSet
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
pub open spec fn may_start(h: H, e: u64, p: u64, t: u64) -> bool {
    wf(h, e) && judged(h, e, 0) && procs(h, e).contains(p) && !avail(h, e).contains(p) && !aborted(h, e) && t == next(h, e) && target_ok(h, t) && !doomed(h, t) && !(h.any_failed && !keep(h, e))
    && (forall|q: u64| #[trigger] runs(procs(h, e), avail(h, e), q) && q != p ==> target_ok(h, tgt(h, q)) && tgt(h, q) != t)
    && (forall|q: u64, r: u64| #[trigger] runs(procs(h, e), avail(h, e), q) && #[trigger] runs(procs(h, e), avail(h, e), r) && q != r && q != p && r != p ==> tgt(h, q) != tgt(h, r))
    && (forall|y: u64| #[trigger] h.left.contains(y) && h.handed.contains(y) ==> y == t || exists|q: u64| #[trigger] runs(procs(h, e), avail(h, e), q) && q != p && tgt(h, q) == y)
}
pub open spec fn same_but_started(h: H, h2: H, p: u64) -> bool {
    h2 == (HeapV { CommandExecutor: h2.CommandExecutor, DescriptionBlock: h2.DescriptionBlock, threw: true, ..h }) && h2.CommandExecutor.dom() =~= h.CommandExecutor.dom() && h2.DescriptionBlock.dom() =~= h.DescriptionBlock.dom()
    && forall|q: u64| q != p ==> #[trigger] h2.CommandExecutor[q].m_pTarget == h.CommandExecutor[q].m_pTarget
}
//@extern CommandExecutor::start
//@flags heap throws
    requires this != 0, target != 0, old(hp)@.DescriptionBlock.dom().contains(target), forall|e: u64| #[trigger] only(old(hp)@, e) ==> may_start(old(hp)@, e, this, target),
    ensures forall|e: u64| #[trigger] only(old(hp)@, e) ==> if res is Ok { core(final(hp)@, e) && all_run(final(hp)@, e) && settled(old(hp)@, final(hp)@, e) && only(final(hp)@, e) } else { same_but_started(old(hp)@, final(hp)@, this) },
//@endfn
pub open spec fn stopped(h: H, e: u64) -> bool { core(h, e) && aborted(h, e) }
pub open spec fn kept(h: H, h2: H, e: u64) -> bool { stopped(h2, e) && settled(h, h2, e) && (h.any_failed ==> h2.any_failed) && (h.threw ==> h2.threw) && (!keep(h, e) && te(h, e).m_pendingTargets@.len() == 0 && h.left =~= Set::empty() ==> te(h2, e).m_pendingTargets@.len() == 0 && h2.left =~= Set::empty()) }
//@extern CommandExecutor::waitForFinished
//@flags heap
    requires forall|e: u64| #[trigger] only(old(hp)@, e) ==> stopped(old(hp)@, e),
    ensures forall|e: u64| #[trigger] only(old(hp)@, e) ==> kept(old(hp)@, final(hp)@, e),
//@endfn
//@extern CommandExecutor::isActive
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern QEventLoop::exec
//@flags heap
    requires forall|e: u64| #[trigger] only(old(hp)@, e) ==> stopped(old(hp)@, e),
    ensures forall|e: u64| #[trigger] only(old(hp)@, e) ==> kept(old(hp)@, final(hp)@, e),
//@endfn
pub proof fn the_only(h: H, e: u64, f: u64) requires only(h, e), only(h, f) ensures e == f { assert(h.TargetExecutor.dom().contains(e)); assert(set![f].contains(e)); }
pub proof fn only_one(h: H, e: u64) requires only(h, e) ensures forall|f: u64| #[trigger] only(h, f) ==> f == e { assert forall|f: u64| #[trigger] only(h, f) implies f == e by { the_only(h, e, f); } }
pub open spec fn others_same(h: H, h2: H, e: u64) -> bool { h2 == (HeapV { TargetExecutor: h2.TargetExecutor, ..h }) && h2.TargetExecutor.dom() =~= h.TargetExecutor.dom() }
pub proof fn taken(h: H, h2: H, e: u64)
    requires inv(h, e), !aborted(h, e), next(h, e) != 0, avail(h, e).len() > 0, others_same(h, h2, e), te(h2, e) == (TargetExecutor { m_availableProcesses: te(h2, e).m_availableProcesses, ..te(h, e) }), avail(h2, e) =~= avail(h, e).remove(0)
    ensures may_start(h2, e, avail(h, e)[0], next(h, e)), avail(h, e)[0] != 0
{
    assert forall|f: u64, t: u64| #[trigger] spoils(h2.failed, h2.above, f, t) implies spoils(h.failed, h.above, f, t) by { }
    assert(!doomed(h2, next(h, e))) by { if doomed(h2, next(h, e)) { let f = choose|f: u64| #[trigger] spoils(h2.failed, h2.above, f, next(h, e)); assert(spoils(h.failed, h.above, f, next(h, e))); } }
    assert(judged(h2, e, 0)); assert(target_ok(h2, next(h, e)));
    let a = avail(h, e); let p = a[0]; let b = avail(h2, e); assert(a.contains(p));
    assert forall|x: u64| #[trigger] b.contains(x) <==> a.contains(x) && x != p by {
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[i + 1] == x); }
        if a.contains(x) && x != p { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i - 1] == x); } }
    assert(b.no_duplicates());
    assert(procs(h, e).contains(p));
    assert forall|q: u64| #[trigger] runs(procs(h2, e), avail(h2, e), q) implies q == p || runs(procs(h, e), avail(h, e), q) by { }
    assert forall|q: u64| #[trigger] runs(procs(h, e), avail(h, e), q) implies runs(procs(h2, e), avail(h2, e), q) && q != p by { }
    assert forall|y: u64| #[trigger] h2.left.contains(y) && h2.handed.contains(y) && y != next(h, e) implies exists|q: u64| #[trigger] runs(procs(h2, e), avail(h2, e), q) && q != p && tgt(h2, q) == y by { assert(being_built(procs(h, e), avail(h, e), h.CommandExecutor, y)); let q = choose|q: u64| #[trigger] runs(procs(h, e), avail(h, e), q) && tgt(h, q) == y; assert(runs(procs(h2, e), avail(h2, e), q)); }
}
pub proof fn given_back(h: H, h2: H, e: u64, p: u64)
    requires may_start(h, e, p, next(h, e)), h2.threw, exists|hm: H| #[trigger] same_but_started(h, hm, p) && others_same(hm, h2, e), te(h2, e) == (TargetExecutor { m_availableProcesses: te(h2, e).m_availableProcesses, m_bAborted: true, m_jobAcquisitionCount: te(h2, e).m_jobAcquisitionCount, ..te(h, e) }), avail(h2, e) =~= seq![p] + avail(h, e)
    ensures stopped(h2, e)
{
    let a = avail(h, e); let b = avail(h2, e);
    assert forall|x: u64| #[trigger] b.contains(x) <==> a.contains(x) || x == p by {
        assert(b[0] == p); if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i + 1] == x); }
        if b.contains(x) && x != p { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[i - 1] == x); } }
    assert(b.no_duplicates());
    assert forall|q: u64| #[trigger] runs(procs(h2, e), avail(h2, e), q) implies q != p && runs(procs(h, e), avail(h, e), q) by { }
    assert(wf(h2, e));
    assert forall|f: u64, t: u64| #[trigger] spoils(h2.failed, h2.above, f, t) implies spoils(h.failed, h.above, f, t) by { }
    assert(judged(h2, e, 0)); assert(working(h2, e));
}
pub proof fn nothing_left(h: H, e: u64)
    requires core(h, e), none_lost(h, e), next(h, e) == 0, !aborted(h, e), running(h, e) <= 0, forall|y: u64| #[trigger] h.left.contains(y) ==> exists|z: u64| h.left.contains(z) && #[trigger] h.handed.contains(z)
    ensures h.left =~= Set::empty(), forall|p: u64| !#[trigger] runs(procs(h, e), avail(h, e), p)
{
    none_runs(h, e);
    assert forall|y: u64| !#[trigger] h.left.contains(y) by { if h.left.contains(y) { let z = choose|z: u64| h.left.contains(z) && #[trigger] h.handed.contains(z); assert(being_built(procs(h, e), avail(h, e), h.CommandExecutor, z)); } }
}
pub open spec fn new_marks(h: H, e: u64, t: u64, failed: bool) -> Set<u64> { if failed && keep(h, e) { h.marked.union(h.above[t].intersect(h.left)) } else { h.marked } }
pub proof fn returned(h: H, h2: H, e: u64, p: u64, failed: bool)
    requires core_but(h, e, p), runs(procs(h, e), avail(h, e), p), none_lost(h, e), tgt(h, p) != 0, failed == h.failed.contains(tgt(h, p)), h2.TargetExecutor.dom() =~= h.TargetExecutor.dom(),
        h2 == (HeapV { TargetExecutor: h2.TargetExecutor, DependencyGraph: h2.DependencyGraph, DescriptionBlock: h2.DescriptionBlock, left: h2.left, marked: h2.marked, ..h }), h2.DescriptionBlock.dom() == h.DescriptionBlock.dom(),
        te(h2, e) == (TargetExecutor { m_availableProcesses: te(h2, e).m_availableProcesses, m_jobAcquisitionCount: te(h2, e).m_jobAcquisitionCount, m_allCommandsSuccessfullyExecuted: te(h, e).m_allCommandsSuccessfullyExecuted && !failed, ..te(h, e) }),
        avail(h2, e) == avail(h, e).push(p), h2.left =~= h.left.remove(tgt(h, p)), h2.marked =~= new_marks(h, e, tgt(h, p), failed)
    ensures wf(h2, e), verdicts(h2, e, 0), working(h2, e), none_lost(h2, e), !failed || keep(h, e) ==> judged(h2, e, 0), (next_ok(h, e) && next(h, e) != tgt(h, p) ==> next_ok(h2, e))
{
    let a = avail(h, e); let b = avail(h2, e); let t = tgt(h, p); let ps = procs(h, e);
    assert forall|x: u64| #[trigger] b.contains(x) <==> a.contains(x) || x == p by {
        assert(b[a.len() as int] == p); if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
        if b.contains(x) && x != p { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[i] == x); } }
    assert(b.no_duplicates());
    assert forall|q: u64| #[trigger] runs(ps, b, q) implies q != p && runs(ps, a, q) by { }
    assert(wf(h2, e));
    assert forall|f: u64, y: u64| keep(h2, e) && #[trigger] spoils(h2.failed, h2.above, f, y) && h2.left.contains(y) implies h2.marked.contains(y) by { assert(spoils(h.failed, h.above, f, y)); if f == t { assert(failed); } }
    assert(verdicts(h2, e, 0));
    if bound(h, e) {
        assert(target_ok(h, t));
        assert forall|q: u64| #[trigger] runs(ps, b, q) implies target_ok(h2, tgt(h2, q)) by { assert(runs(ps, a, q)); assert(tgt(h, q) != t); assert(target_ok(h, tgt(h, q))); assert(!h.above[t].contains(tgt(h, q))); }
    }
    assert(working(h2, e));
    assert forall|y: u64| !aborted(h2, e) && #[trigger] h2.left.contains(y) && h2.handed.contains(y) && !(y != 0 && y == next(h2, e)) implies being_built(ps, b, h2.CommandExecutor, y) by { assert(being_built(ps, a, h.CommandExecutor, y)); let q = choose|q: u64| #[trigger] runs(ps, a, q) && tgt(h, q) == y; assert(q != p); assert(runs(ps, b, q)); }
    if next_ok(h, e) && next(h, e) != t && next(h, e) != 0 && !aborted(h, e) { assert(target_ok(h, t)); assert(target_ok(h, next(h, e))); assert(!h.above[t].contains(next(h, e))); assert(target_ok(h2, next(h2, e))); }
}
//@fn TargetExecutor::numberOfRunningProcesses
//@flags heap
    requires wf(old(hp)@, this),
    ensures final(hp)@ == old(hp)@, res == running(old(hp)@, this)
//@endfn
//@fn TargetExecutor::waitForProcesses
//@flags heap
    requires stopped(old(hp)@, this),
    ensures kept(old(hp)@, final(hp)@, this)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@loop 1
    invariant fe1_c@ == procs(old(hp)@, this), 0 <= fe1_i <= fe1_c@.len(), stopped(old(hp)@, this), kept(old(hp)@, hp@, this),
//@body 1
    proof { assert(procs(hp@, this).contains(fe1_c@[fe1_i as int])); }
//@loop 2
    invariant procs(hp@, this).contains(process), stopped(old(hp)@, this), kept(old(hp)@, hp@, this),
//@body 2
    proof { only_one(hp@, this); }
//@endfn
//@fn TargetExecutor::waitForJobClient
//@flags heap
    requires stopped(old(hp)@, this),
    ensures kept(old(hp)@, final(hp)@, this)
//@entry
    proof { only_one(hp@, this); }
//@endfn
//@fn TargetExecutor::finishBuild
//@flags heap
    requires core(old(hp)@, this), finish_ok(old(hp)@, this, exitCode as int) || (exitCode == 0 && keep(old(hp)@, this) && !old(hp)@.threw && finish_ok(old(hp)@, this, if old(hp)@.any_failed { 1 } else { 0 }))
    ensures final(hp)@ == old(hp)@
//@endfn
//@fn TargetExecutor::findNextTarget
//@flags heap throws
    requires core(old(hp)@, this), !aborted(old(hp)@, this), next(old(hp)@, this) == 0, none_lost(old(hp)@, this)
    ensures core(final(hp)@, this), settled(old(hp)@, final(hp)@, this), te(final(hp)@, this) == (TargetExecutor { m_nextTarget: next(final(hp)@, this), ..te(old(hp)@, this) }),
        res is Err ==> final(hp)@.threw, res is Ok ==> final(hp)@.threw == old(hp)@.threw && next_ok(final(hp)@, this) && none_lost(final(hp)@, this) && (next(final(hp)@, this) == 0 ==> forall|y: u64| #[trigger] final(hp)@.left.contains(y) ==> exists|z: u64| final(hp)@.left.contains(z) && #[trigger] final(hp)@.handed.contains(z))
//@attr #[verifier::exec_allows_no_decreases_clause]
//@loop 1
    invariant core(hp@, this), all_run(hp@, this), settled(old(hp)@, hp@, this), hp@.threw == old(hp)@.threw, !aborted(hp@, this), te(hp@, this) == (TargetExecutor { m_nextTarget: next(hp@, this), ..te(old(hp)@, this) }),
//@body 1
    let ghost hb = hp@;
//@post findAvailableTarget 1
    proof { assert forall|f: u64, t: u64| #[trigger] spoils(hp@.failed, hp@.above, f, t) implies spoils(hb.failed, hb.above, f, t) by { } }
//@post removeLeaf 1
    proof { assert forall|f: u64, t: u64| #[trigger] spoils(hp@.failed, hp@.above, f, t) implies spoils(hb.failed, hb.above, f, t) by { } assert(wf(hp@, this)); assert(judged(hp@, this, 0)); assert(working(hp@, this)); assert(all_run(hp@, this)); }
//@post removeLeaf 2
    proof { assert forall|f: u64, t: u64| #[trigger] spoils(hp@.failed, hp@.above, f, t) implies spoils(hb.failed, hb.above, f, t) by { } assert(wf(hp@, this)); assert(judged(hp@, this, 0)); assert(working(hp@, this)); assert(all_run(hp@, this)); }
//@endfn
//@fn TargetExecutor::buildNextTarget
//@flags heap
    requires inv(old(hp)@, this), !aborted(old(hp)@, this) ==> next(old(hp)@, this) != 0 && avail(old(hp)@, this).len() > 0 && !old(hp)@.threw
    ensures inv(final(hp)@, this)
//@entry
    let ghost h0 = hp@; let ghost mut h1 = hp@; proof { only_one(h0, this); }
//@call start 1
    proof { h1 = hp@; taken(h0, hp@, this); only_one(hp@, this); }
//@call waitForProcesses 1
    proof { given_back(h1, hp@, this, executor); }
//@endfn
//@fn TargetExecutor::startProcesses
//@flags heap
    requires inv(old(hp)@, this), !aborted(old(hp)@, this) ==> !old(hp)@.threw, te(old(hp)@, this).m_jobAcquisitionCount < 0x7fffffff
    ensures inv(final(hp)@, this)
//@post findNextTarget 1
    proof { if next(hp@, this) == 0 && running(hp@, this) <= 0 { nothing_left(hp@, this); } }
//@endfn
//@fn TargetExecutor::onChildFinished
//@flags heap
    requires core_but(old(hp)@, this, executor), runs(procs(old(hp)@, this), avail(old(hp)@, this), executor), none_lost(old(hp)@, this), old(hp)@.ended.contains(tgt(old(hp)@, executor)), commandFailed == old(hp)@.failed.contains(tgt(old(hp)@, executor)), commandFailed ==> old(hp)@.any_failed, tgt(old(hp)@, executor) != 0, old(hp)@.DescriptionBlock.dom().contains(tgt(old(hp)@, executor))
    ensures core(final(hp)@, this), settled(old(hp)@, final(hp)@, this), none_lost(final(hp)@, this), next_ok(old(hp)@, this) && (next(old(hp)@, this) != tgt(old(hp)@, executor)) ==> next_ok(final(hp)@, this),
        commandFailed && !keep(old(hp)@, this) ==> aborted(final(hp)@, this) && te(final(hp)@, this).m_pendingTargets@.len() == 0 && final(hp)@.left =~= Set::empty()
//@before 1
    let ghost hk = hp@;
//@loop 1
    invariant hp@ == hk, fe1_c@ == procs(hk, this), 0 <= fe1_i <= fe1_c@.len(), wf(hk, this),
    decreases fe1_c@.len() - fe1_i
//@body 1
    proof { assert(procs(hk, this).contains(fe1_c@[fe1_i as int])); }
//@entry
    let ghost h0 = hp@;
//@call isBufferedOutputSet 1
    proof { returned(h0, hp@, this, executor, commandFailed); }
//@endfn
