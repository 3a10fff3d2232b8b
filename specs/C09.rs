//@sources src/jomlib/targetexecutor.cpp:QEventLoop src/jomlib/jobclient.cpp:QSystemSemaphore src/jomlib/jobclientacquirehelper.cpp:QSystemSemaphore
//@cfg
{'structs': ['QEventLoop', 'Command', 'FastFileInfo', 'GlobalOptions'], 'struct_default': {'QEventLoop': 'nondet_QEventLoop()'}, 'heap_new': {'JobClient.*': 'new_client()', 'CommandExecutor.*': 'new_executor()', 'DependencyGraph.*': 'new_graph()'}, 'heap': ['TargetExecutor', 'CommandExecutor', 'JobClient', 'DependencyGraph', 'DescriptionBlock', 'Makefile', 'Options', 'JobClientAcquireHelper', 'QSystemSemaphore'],
 'fields': {'QEventLoop': [], 'Command': [], 'FastFileInfo': [], 'GlobalOptions': ['maxNumberOfJobs'], 'TargetExecutor': ['m_makefile', 'm_depgraph', 'm_pendingTargets', 'm_jobClient', 'm_bAborted', 'm_jobAcquisitionCount', 'm_availableProcesses', 'm_processes', 'm_nextTarget', 'm_allCommandsSuccessfullyExecuted'],
   'CommandExecutor': ['m_pTarget', 'm_active'], 'JobClient': ['m_semaphore', 'm_isAcquiring'], 'DependencyGraph': [], 'DescriptionBlock': ['m_commands', 'm_pMakefile', 'm_targetName'], 'Makefile': ['m_options', 'm_targets'], 'Options': ['buildAllTargets', 'buildUnrelatedTargetsOnError', 'dumpDependencyGraph', 'dumpDependencyGraphDot'], 'JobClientAcquireHelper': ['m_semaphore'], 'QSystemSemaphore': []},
 'ghost_params': ['g_options: &mut GlobalOptions'], 'globals': {'g_options': ('g_options', 'globalstruct', 'GlobalOptions')}, 'heap_ghost': ['asked: int', 'released: int', 'codes: Seq<i32>', 'got: int', 'told: int'], 'exceptions': {'Exception': 'QString'}}
//@endcfg
pub type H = HeapV;
pub open spec fn te(h: H, e: u64) -> TargetExecutor { h.TargetExecutor[e] }
pub open spec fn procs(h: H, e: u64) -> Seq<u64> { te(h, e).m_processes@ }
pub open spec fn avail(h: H, e: u64) -> Seq<u64> { te(h, e).m_availableProcesses@ }
pub open spec fn running(h: H, e: u64) -> int { procs(h, e).len() - avail(h, e).len() }
pub open spec fn acq(h: H, e: u64) -> bool { h.JobClient[te(h, e).m_jobClient].m_isAcquiring }
pub open spec fn count(h: H, e: u64) -> int { te(h, e).m_jobAcquisitionCount as int }
pub open spec fn aborted(h: H, e: u64) -> bool { te(h, e).m_bAborted }
pub open spec fn active(h: H, p: u64) -> bool { h.CommandExecutor[p].m_active }
// tokens asked for so far and not given back; one of them may still be on its way
pub open spec fn client_ok(h: H, c: u64) -> bool { c != 0 && h.JobClient.dom().contains(c) && h.JobClient[c].m_semaphore != 0 && h.QSystemSemaphore.dom().contains(h.JobClient[c].m_semaphore) }
pub open spec fn mk_ok(h: H, m: u64) -> bool { m != 0 && h.Makefile.dom().contains(m) && h.Makefile[m].m_options != 0 && h.Options.dom().contains(h.Makefile[m].m_options) }
pub open spec fn wf(h: H, e: u64) -> bool {
    e != 0 && h.TargetExecutor.dom().contains(e) && client_ok(h, te(h, e).m_jobClient) && mk_ok(h, te(h, e).m_makefile) && te(h, e).m_depgraph != 0 && h.DependencyGraph.dom().contains(te(h, e).m_depgraph)
    && (forall|p: u64| #[trigger] procs(h, e).contains(p) ==> p != 0 && h.CommandExecutor.dom().contains(p))
    && procs(h, e).no_duplicates() && avail(h, e).no_duplicates() && procs(h, e).len() <= 0x10000
    && (forall|p: u64| #[trigger] avail(h, e).contains(p) ==> procs(h, e).contains(p))
    && (te(h, e).m_nextTarget != 0 ==> h.DescriptionBlock.dom().contains(te(h, e).m_nextTarget))
    && (forall|i: int| 0 <= i < te(h, e).m_pendingTargets@.len() ==> #[trigger] te(h, e).m_pendingTargets@[i] != 0 && h.DescriptionBlock.dom().contains(te(h, e).m_pendingTargets@[i]))
}
// an executor is in the list of available ones exactly while it runs nothing (x: the one being handed over)
pub open spec fn idle(h: H, e: u64, x: u64) -> bool { forall|p: u64| #[trigger] procs(h, e).contains(p) && p != x ==> (avail(h, e).contains(p) <==> !active(h, p)) }
pub open spec fn pos(x: int) -> int { if x < 0 { 0 } else { x } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn busy(h: H, e: u64) -> int { running(h, e) + b2i(acq(h, e)) }
pub open spec fn counted(h: H, e: u64) -> bool {
    if aborted(h, e) { pos(busy(h, e) - 1) <= count(h, e) <= running(h, e) } else { count(h, e) == pos(busy(h, e) - 1) }
}
pub open spec fn honest(h: H, e: u64) -> bool { h.asked - h.released == count(h, e) }
// while a token is on its way there are a target and an executor for it
pub open spec fn expecting(h: H, e: u64) -> bool { acq(h, e) && !aborted(h, e) ==> te(h, e).m_nextTarget != 0 && avail(h, e).len() > 0 }
pub open spec fn inv(h: H, e: u64) -> bool { wf(h, e) && idle(h, e, 0) && counted(h, e) && honest(h, e) && expecting(h, e) }
// tokens this process really has
pub open spec fn held(h: H, e: u64) -> int { h.asked - h.released - b2i(acq(h, e)) }
// every running target but one has a token
pub open spec fn covered(h: H, e: u64) -> bool { running(h, e) <= 1 + pos(held(h, e)) }
pub proof fn always_covered(h: H, e: u64) requires inv(h, e), !aborted(h, e) ensures covered(h, e), running(h, e) > 0 ==> held(h, e) == running(h, e) - 1, running(h, e) == 0 && !acq(h, e) ==> held(h, e) == 0 { sub_len(h, e); }
pub proof fn covered_when_aborted(h: H, e: u64) requires inv(h, e), aborted(h, e) ensures covered(h, e), running(h, e) == 0 && !acq(h, e) ==> held(h, e) == 0 { sub_len(h, e); }
pub proof fn sub_len(h: H, e: u64) requires wf(h, e) ensures running(h, e) >= 0, running(h, e) == 0 ==> forall|p: u64| #[trigger] procs(h, e).contains(p) ==> avail(h, e).contains(p)
{
    let a = avail(h, e).to_set(); let p = procs(h, e).to_set();
    avail(h, e).unique_seq_to_set(); procs(h, e).unique_seq_to_set();
    assert(a.subset_of(p)) by { assert forall|x: u64| a.contains(x) implies p.contains(x) by { assert(avail(h, e).contains(x)); assert(procs(h, e).contains(x)); } }
    vstd::set_lib::lemma_len_subset(a, p);
    if running(h, e) == 0 { vstd::set_lib::lemma_subset_equality(a, p); assert forall|x: u64| procs(h, e).contains(x) implies avail(h, e).contains(x) by { assert(p.contains(x)); assert(a.contains(x)); } }
}
pub proof fn all_available(h: H, e: u64) requires wf(h, e), forall|p: u64| #[trigger] procs(h, e).contains(p) ==> avail(h, e).contains(p) ensures running(h, e) == 0
{
    let a = avail(h, e).to_set(); let p = procs(h, e).to_set();
    avail(h, e).unique_seq_to_set(); procs(h, e).unique_seq_to_set();
    assert forall|x: u64| a.contains(x) <==> p.contains(x) by { assert(avail(h, e).contains(x) ==> procs(h, e).contains(x)); assert(procs(h, e).contains(x) ==> avail(h, e).contains(x)); }
    assert(a =~= p);
}
// what does not change
pub open spec fn same_but_graph(h: H, h2: H) -> bool { h2 == (HeapV { DependencyGraph: h2.DependencyGraph, DescriptionBlock: h2.DescriptionBlock, ..h }) && h2.DependencyGraph.dom() == h.DependencyGraph.dom() && h2.DescriptionBlock.dom() == h.DescriptionBlock.dom() }
pub proof fn graph_step(h: H, h2: H, e: u64) requires same_but_graph(h, h2) ensures inv(h, e) == inv(h2, e), wf(h, e) == wf(h2, e), idle(h, e, 0) == idle(h2, e, 0) { }
pub open spec fn steady(h: H, h2: H, e: u64) -> bool {
    procs(h2, e) == procs(h, e) && te(h2, e).m_jobClient == te(h, e).m_jobClient && te(h2, e).m_makefile == te(h, e).m_makefile && te(h2, e).m_depgraph == te(h, e).m_depgraph
    && h2.TargetExecutor.dom() =~= h.TargetExecutor.dom() && h2.CommandExecutor.dom() == h.CommandExecutor.dom() && (aborted(h, e) && acq(h2, e) ==> acq(h, e))
    && (aborted(h, e) ==> aborted(h2, e) && forall|p: u64| #[trigger] avail(h, e).contains(p) ==> avail(h2, e).contains(p))
}
// a target may be started by executor p: it runs, and a slot for it exists
pub open spec fn may_start(h: H, e: u64, p: u64) -> bool {
    wf(h, e) && idle(h, e, p) && procs(h, e).contains(p) && !avail(h, e).contains(p) && !active(h, p) && !aborted(h, e) && !acq(h, e) && counted(h, e) && honest(h, e) && covered(h, e)
}
pub open spec fn can_build(h: H, e: u64) -> bool {
    if aborted(h, e) { inv(h, e) } else { wf(h, e) && idle(h, e, 0) && honest(h, e) && !acq(h, e) && count(h, e) == running(h, e) && avail(h, e).len() > 0 && te(h, e).m_nextTarget != 0 }
}
pub proof fn granted(h: H, h2: H, e: u64)
    requires inv(h, e), acq(h, e), h2 == (HeapV { JobClient: h.JobClient.insert(te(h, e).m_jobClient, JobClient { m_isAcquiring: false, ..h.JobClient[te(h, e).m_jobClient] }), ..h })
    ensures can_build(h2, e)
{ sub_len(h, e); assert(wf(h2, e)); assert(idle(h2, e, 0)); }
pub open spec fn same_active(h: H, h2: H) -> bool { h2.CommandExecutor.dom() =~= h.CommandExecutor.dom() && forall|q: u64| #[trigger] h2.CommandExecutor[q].m_active == h.CommandExecutor[q].m_active }
pub open spec fn untouched(h: H, h2: H) -> bool { h2 == (HeapV { CommandExecutor: h2.CommandExecutor, DescriptionBlock: h2.DescriptionBlock, ..h }) && same_active(h, h2) && h2.DescriptionBlock.dom() =~= h.DescriptionBlock.dom() }
pub open spec fn same_rest(h: H, h2: H, e: u64) -> bool {
    procs(h2, e) == procs(h, e) && same_active(h, h2) && h2.JobClient == h.JobClient && h2.QSystemSemaphore == h.QSystemSemaphore && h2.Makefile == h.Makefile && h2.Options == h.Options && h2.TargetExecutor.dom() =~= h.TargetExecutor.dom() && h2.DependencyGraph.dom() == h.DependencyGraph.dom() && h2.DescriptionBlock.dom() == h.DescriptionBlock.dom()
    && te(h2, e).m_jobClient == te(h, e).m_jobClient && te(h2, e).m_makefile == te(h, e).m_makefile && te(h2, e).m_depgraph == te(h, e).m_depgraph && te(h2, e).m_nextTarget == te(h, e).m_nextTarget && te(h2, e).m_pendingTargets == te(h, e).m_pendingTargets
}
pub proof fn taken(h: H, h2: H, e: u64)
    requires can_build(h, e), !aborted(h, e), same_rest(h, h2, e), avail(h2, e) =~= avail(h, e).remove(0), te(h2, e).m_jobAcquisitionCount == te(h, e).m_jobAcquisitionCount, !aborted(h2, e), h2.asked == h.asked, h2.released == h.released
    ensures may_start(h2, e, avail(h, e)[0]), avail(h, e)[0] != 0, h2.CommandExecutor.dom().contains(avail(h, e)[0])
{
    sub_len(h, e); let a = avail(h, e); let p = a[0]; let b = avail(h2, e); assert(a.contains(p));
    assert forall|x: u64| #[trigger] b.contains(x) <==> a.contains(x) && x != p by {
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(a[i + 1] == x); }
        if a.contains(x) && x != p { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i - 1] == x); } }
    assert(b.no_duplicates());
}
pub proof fn given_back(h: H, h2: H, e: u64, p: u64)
    requires wf(h, e), idle(h, e, p), procs(h, e).contains(p), !avail(h, e).contains(p), !active(h, p), same_rest(h, h2, e), avail(h2, e) == avail(h, e).push(p) || avail(h2, e) =~= seq![p] + avail(h, e)
    ensures wf(h2, e), idle(h2, e, 0), running(h2, e) == running(h, e) - 1, running(h2, e) >= 0
{
    let a = avail(h, e); let b = avail(h2, e);
    assert forall|x: u64| #[trigger] b.contains(x) <==> a.contains(x) || x == p by {
        if b == a.push(p) { assert(b[a.len() as int] == p); if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); } }
        else { assert(b[0] == p); if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i + 1] == x); } }
        if b.contains(x) && x != p { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if b == a.push(p) { assert(a[i] == x); } else { assert(a[i - 1] == x); } } }
    assert(b.no_duplicates());
    assert(wf(h2, e)); sub_len(h2, e);
}
// ---- one target executor; the signals, the semaphore, the dependency graph
pub open spec fn only(h: H, e: u64) -> bool { h.TargetExecutor.dom() =~= set![e] }
pub open spec fn ready_abort(h: H, e: u64) -> bool { only(h, e) && inv(h, e) && aborted(h, e) }
pub open spec fn same_jobs(h: H, h2: H, e: u64) -> bool { only(h, e) ==> only(h2, e) }
pub open spec fn same_but_codes(h: H, h2: H) -> bool { h2 == (HeapV { codes: h2.codes, ..h }) }
pub open spec fn same_but_next(h: H, h2: H, e: u64) -> bool { wf(h2, e) && h2 == (HeapV { TargetExecutor: h2.TargetExecutor, DependencyGraph: h2.DependencyGraph, DescriptionBlock: h2.DescriptionBlock, ..h }) && h2.TargetExecutor.dom() =~= h.TargetExecutor.dom() && te(h2, e) == (TargetExecutor { m_nextTarget: te(h2, e).m_nextTarget, ..te(h, e) }) && h2.DependencyGraph.dom() == h.DependencyGraph.dom() && h2.DescriptionBlock.dom() == h.DescriptionBlock.dom() }
pub open spec fn handed_back(h: H, e: u64, p: u64) -> bool {
    wf(h, e) && idle(h, e, p) && procs(h, e).contains(p) && !avail(h, e).contains(p) && !active(h, p) && counted(h, e) && honest(h, e) && expecting(h, e) && h.CommandExecutor[p].m_pTarget != 0 && h.DescriptionBlock.dom().contains(h.CommandExecutor[p].m_pTarget)
}
//@extern TargetExecutor::finished
//@flags heap
    requires inv(old(hp)@, this), !acq(old(hp)@, this), running(old(hp)@, this) == 0,
    ensures final(hp)@ == (HeapV { codes: old(hp)@.codes.push(exitCode), ..old(hp)@ })
//@endfn
//@extern QSystemSemaphore::release
//@flags heap
    requires this != 0, old(hp)@.QSystemSemaphore.dom().contains(this), n == 1,
    ensures final(hp)@ == (HeapV { released: old(hp)@.released + 1, ..old(hp)@ })
//@endfn
//@extern JobClient::startAcquisition
//@flags heap
    ensures final(hp)@ == (HeapV { asked: old(hp)@.asked + 1, ..old(hp)@ })
//@endfn
//@extern JobClient::acquired
//@flags heap
    requires forall|e: u64| #[trigger] old(hp)@.TargetExecutor.dom().contains(e) && te(old(hp)@, e).m_jobClient == this ==> can_build(old(hp)@, e),
//@endfn
//@extern QSystemSemaphore::acquire
//@flags heap
    requires this != 0, old(hp)@.QSystemSemaphore.dom().contains(this),
    ensures final(hp)@ == (HeapV { got: old(hp)@.got + b2i(res), ..old(hp)@ })
//@endfn
//@extern QSystemSemaphore::errorString
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern QSystemSemaphore::error
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
// a token is reported once, and only after the semaphore has granted it
//@extern JobClientAcquireHelper::acquired
//@flags heap
    requires old(hp)@.got == old(hp)@.told + 1
    ensures final(hp)@ == (HeapV { told: old(hp)@.told + 1, ..old(hp)@ })
//@endfn
//@fn JobClientAcquireHelper::acquire
//@flags heap
    requires this != 0, old(hp)@.JobClientAcquireHelper.dom().contains(this), old(hp)@.JobClientAcquireHelper[this].m_semaphore != 0, old(hp)@.QSystemSemaphore.dom().contains(old(hp)@.JobClientAcquireHelper[this].m_semaphore), old(hp)@.got == old(hp)@.told
    ensures final(hp)@.got == final(hp)@.told
//@endfn
//@fn JobClient::isAcquiring
//@flags heap
    requires this != 0, old(hp)@.JobClient.dom().contains(this),
    ensures final(hp)@ == old(hp)@, res == old(hp)@.JobClient[this].m_isAcquiring
//@endfn
//@fn JobClient::asyncAcquire
//@flags heap
    requires client_ok(old(hp)@, this), !old(hp)@.JobClient[this].m_isAcquiring,
    ensures final(hp)@ == (HeapV { asked: old(hp)@.asked + 1, JobClient: old(hp)@.JobClient.insert(this, JobClient { m_isAcquiring: true, ..old(hp)@.JobClient[this] }), ..old(hp)@ })
//@endfn
//@fn JobClient::release
//@flags heap
    requires client_ok(old(hp)@, this),
    ensures final(hp)@ == (HeapV { released: old(hp)@.released + 1, ..old(hp)@ })
//@endfn
//@fn JobClient::onHelperAcquired
//@flags heap
    requires client_ok(old(hp)@, this), old(hp)@.JobClient[this].m_isAcquiring, forall|e: u64| #[trigger] old(hp)@.TargetExecutor.dom().contains(e) && te(old(hp)@, e).m_jobClient == this ==> inv(old(hp)@, e),
//@call acquired 1
    proof { assert forall|e: u64| #[trigger] hp@.TargetExecutor.dom().contains(e) && te(hp@, e).m_jobClient == this implies can_build(hp@, e) by { assert(old(hp)@.TargetExecutor.dom().contains(e)); granted(old(hp)@, hp@, e); } }
//@endfn
//@extern DependencyGraph::findAvailableTarget
//@flags heap throws
    requires this != 0, old(hp)@.DependencyGraph.dom().contains(this),
    ensures same_but_graph(old(hp)@, final(hp)@), (res matches Ok(t) && t != 0) ==> (final(hp)@.DescriptionBlock.dom().contains(res->Ok_0))
//@endfn
//@extern DependencyGraph::removeLeaf(P:DescriptionBlock)
//@flags heap
    requires this != 0, old(hp)@.DependencyGraph.dom().contains(this),
    ensures same_but_graph(old(hp)@, final(hp)@)
//@endfn
//@extern DependencyGraph::isUnbuildable
//@flags heap
    requires this != 0, old(hp)@.DependencyGraph.dom().contains(this),
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern DependencyGraph::markParentsRecursivlyUnbuildable(P:DescriptionBlock)
//@flags heap
    requires this != 0, old(hp)@.DependencyGraph.dom().contains(this),
    ensures same_but_graph(old(hp)@, final(hp)@)
//@endfn
//@extern DependencyGraph::clear
//@flags heap
    requires this != 0, old(hp)@.DependencyGraph.dom().contains(this),
    ensures same_but_graph(old(hp)@, final(hp)@)
//@endfn
//@extern DependencyGraph::build
//@flags heap throws
    requires this != 0, old(hp)@.DependencyGraph.dom().contains(this),
    ensures same_but_graph(old(hp)@, final(hp)@)
//@endfn
//@extern Makefile::invalidateTimeStamps
//@flags heap
    requires mk_ok(old(hp)@, this),
    ensures same_but_graph(old(hp)@, final(hp)@)
//@endfn
//@extern FastFileInfo::clearCacheForFile
    ensures true
//@endfn
//@extern CommandExecutor::setBufferedOutput
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern CommandExecutor::isBufferedOutputSet
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern CommandExecutor::start
//@flags heap throws
    requires this != 0, target != 0, old(hp)@.DescriptionBlock.dom().contains(target), forall|e: u64| #[trigger] old(hp)@.TargetExecutor.dom().contains(e) && procs(old(hp)@, e).contains(this) ==> may_start(old(hp)@, e, this),
    ensures final(hp)@.TargetExecutor.dom() == old(hp)@.TargetExecutor.dom(),
        forall|e: u64| #[trigger] old(hp)@.TargetExecutor.dom().contains(e) && procs(old(hp)@, e).contains(this) ==> if res is Ok { inv(final(hp)@, e) && !acq(final(hp)@, e) && steady(old(hp)@, final(hp)@, e) && same_jobs(old(hp)@, final(hp)@, e) } else { untouched(old(hp)@, final(hp)@) },
//@endfn
//@extern CommandExecutor::waitForFinished
//@flags heap
    requires this != 0, old(hp)@.CommandExecutor.dom().contains(this), forall|e: u64| #[trigger] old(hp)@.TargetExecutor.dom().contains(e) ==> inv(old(hp)@, e) && aborted(old(hp)@, e),
    ensures final(hp)@.TargetExecutor.dom() == old(hp)@.TargetExecutor.dom(), final(hp)@.CommandExecutor.dom() == old(hp)@.CommandExecutor.dom(),
        forall|e: u64| #[trigger] old(hp)@.TargetExecutor.dom().contains(e) ==> inv(final(hp)@, e) && steady(old(hp)@, final(hp)@, e)
//@endfn
//@extern QEventLoop::exec
//@flags heap
    requires forall|e: u64| #[trigger] old(hp)@.TargetExecutor.dom().contains(e) ==> inv(old(hp)@, e) && aborted(old(hp)@, e),
    ensures final(hp)@.TargetExecutor.dom() == old(hp)@.TargetExecutor.dom(), final(hp)@.CommandExecutor.dom() == old(hp)@.CommandExecutor.dom(),
        forall|e: u64| #[trigger] old(hp)@.TargetExecutor.dom().contains(e) ==> inv(final(hp)@, e) && steady(old(hp)@, final(hp)@, e) && !acq(final(hp)@, e)
//@endfn
//@fn TargetExecutor::numberOfRunningProcesses
//@flags heap
    requires wf(old(hp)@, this),
    ensures final(hp)@ == old(hp)@, res == running(old(hp)@, this)
//@endfn
//@fn TargetExecutor::waitForProcesses
//@flags heap
    requires ready_abort(old(hp)@, this),
    ensures ready_abort(final(hp)@, this), steady(old(hp)@, final(hp)@, this), running(final(hp)@, this) == 0
//@attr #[verifier::exec_allows_no_decreases_clause]
//@loop 1
    invariant fe1_c@ == procs(old(hp)@, this), 0 <= fe1_i <= fe1_c@.len(), ready_abort(hp@, this), steady(old(hp)@, hp@, this), forall|i: int| 0 <= i < fe1_i ==> avail(hp@, this).contains(#[trigger] fe1_c@[i]),
    ensures fe1_i == fe1_c@.len(),
//@body 1
    proof { assert(procs(hp@, this).contains(fe1_c@[fe1_i as int])); }
//@loop 2
    invariant fe1_c@ == procs(old(hp)@, this), 0 <= fe1_i < fe1_c@.len(), process == fe1_c@[fe1_i as int], procs(hp@, this).contains(process), ready_abort(hp@, this), steady(old(hp)@, hp@, this), forall|i: int| 0 <= i < fe1_i ==> avail(hp@, this).contains(#[trigger] fe1_c@[i]),
    ensures avail(hp@, this).contains(process),
//@before 2
    let ghost hk = hp@;
//@after 1
    proof { assert forall|p: u64| #[trigger] procs(hp@, this).contains(p) implies avail(hp@, this).contains(p) by { let i = choose|i: int| 0 <= i < fe1_c@.len() && fe1_c@[i] == p; assert(fe1_c@[i] == p); } all_available(hp@, this); }
//@endfn
//@fn TargetExecutor::waitForJobClient
//@flags heap
    requires ready_abort(old(hp)@, this),
    ensures ready_abort(final(hp)@, this), steady(old(hp)@, final(hp)@, this), !acq(final(hp)@, this), running(old(hp)@, this) == 0 ==> running(final(hp)@, this) == 0
//@exit
    proof { if running(old(hp)@, this) == 0 { sub_len(old(hp)@, this); all_available(hp@, this); } }
//@endfn
//@fn TargetExecutor::finishBuild
//@flags heap
    requires inv(old(hp)@, this), !acq(old(hp)@, this), running(old(hp)@, this) == 0,
    ensures same_but_codes(old(hp)@, final(hp)@)
//@endfn
//@fn TargetExecutor::findNextTarget
//@flags heap throws
    requires wf(old(hp)@, this),
    ensures same_but_next(old(hp)@, final(hp)@, this)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@loop 1
    invariant wf(hp@, this), same_but_next(old(hp)@, hp@, this),
//@endfn
//@fn TargetExecutor::buildNextTarget
//@flags heap
    requires can_build(old(hp)@, this), only(old(hp)@, this)
    ensures inv(final(hp)@, this), steady(old(hp)@, final(hp)@, this), only(final(hp)@, this), acq(final(hp)@, this) ==> acq(old(hp)@, this)
//@entry
    let ghost h0 = hp@; let ghost mut h1 = hp@;
//@call start 1
    proof { h1 = hp@; taken(h0, hp@, this); }
//@call waitForProcesses 1
    proof { given_back(h1, hp@, this, executor); }
//@endfn
//@fn TargetExecutor::startProcesses
//@flags heap
    requires inv(old(hp)@, this), only(old(hp)@, this)
    ensures inv(final(hp)@, this), steady(old(hp)@, final(hp)@, this), only(final(hp)@, this)
//@entry
    let ghost h0 = hp@; proof { sub_len(h0, this); }
//@endfn
//@fn TargetExecutor::onChildFinished
//@flags heap
    requires handed_back(old(hp)@, this, executor), only(old(hp)@, this)
    ensures inv(final(hp)@, this), steady(old(hp)@, final(hp)@, this), only(final(hp)@, this), acq(final(hp)@, this) ==> acq(old(hp)@, this)
//@before 1
    let ghost hk = hp@;
//@loop 1
    invariant hp@ == hk, fe1_c@ == procs(hk, this), 0 <= fe1_i <= fe1_c@.len(), wf(hk, this),
    decreases fe1_c@.len() - fe1_i
//@body 1
    proof { assert(procs(hk, this).contains(fe1_c@[fe1_i as int])); }
//@entry
    let ghost h0 = hp@;
//@call isBufferedOutputSet 1
    proof { given_back(h0, hp@, this, executor); }
//@endfn
#[verifier::external_body]
pub fn new_client() -> (r: JobClient) ensures r.m_semaphore == 0, !r.m_isAcquiring { unimplemented!() }
pub uninterp spec fn known(m: u64, name: Str) -> bool;
// as constructed: nothing runs, no token
pub open spec fn fresh_executor(h: H, e: u64) -> bool {
    e != 0 && h.TargetExecutor.dom().contains(e) && te(h, e).m_depgraph != 0 && h.DependencyGraph.dom().contains(te(h, e).m_depgraph) && te(h, e).m_jobClient == 0
    && (forall|p: u64| #[trigger] procs(h, e).contains(p) ==> p != 0 && h.CommandExecutor.dom().contains(p) && !active(h, p))
    && procs(h, e).no_duplicates() && procs(h, e).len() <= 0x10000 && avail(h, e) == procs(h, e) && te(h, e).m_pendingTargets@.len() == 0 && h.asked == h.released
}
//@extern JobClient::start
//@flags heap
    requires this != 0, old(hp)@.JobClient.dom().contains(this),
    ensures final(hp)@ == (HeapV { JobClient: final(hp)@.JobClient, QSystemSemaphore: final(hp)@.QSystemSemaphore, ..old(hp)@ }), final(hp)@.JobClient.dom() == old(hp)@.JobClient.dom(), final(hp)@.JobClient[this].m_isAcquiring == old(hp)@.JobClient[this].m_isAcquiring, res ==> client_ok(final(hp)@, this)
//@endfn
//@extern JobClient::errorString
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern Makefile::target
//@flags heap
    requires mk_ok(old(hp)@, this)
    ensures final(hp)@ == old(hp)@, res != 0 ==> old(hp)@.DescriptionBlock.dom().contains(res), known(this, name@) ==> res != 0
//@endfn
//@extern Makefile::firstTarget
//@flags heap
    requires mk_ok(old(hp)@, this)
    ensures final(hp)@ == old(hp)@, res != 0 ==> old(hp)@.DescriptionBlock.dom().contains(res)
//@endfn
//@extern Makefile::fileName
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern DependencyGraph::dump
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern DependencyGraph::dotDump
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@fn TargetExecutor::apply
//@flags heap throws
    requires fresh_executor(old(hp)@, this), mk_ok(old(hp)@, mkfile), only(old(hp)@, this), forall|i: int| 0 <= i < targets@.len() ==> known(mkfile, #[trigger] targets@[i])
    ensures res is Ok ==> inv(final(hp)@, this)
//@loop 1
    invariant 1 <= i <= targets@.len(), only(hp@, this), inv(hp@, this), !acq(hp@, this), running(hp@, this) == 0, te(hp@, this).m_makefile == mkfile, forall|i: int| 0 <= i < targets@.len() ==> known(mkfile, #[trigger] targets@[i]),
    decreases targets@.len() - i
//@endfn
#[verifier::external_body]
pub fn new_executor() -> (r: CommandExecutor) ensures !r.m_active { unimplemented!() }
#[verifier::external_body]
pub fn new_graph() -> (r: DependencyGraph) { unimplemented!() }
//@fn TargetExecutor::TargetExecutor
//@flags heap
    requires this != 0, old(hp)@.TargetExecutor.dom().contains(this), 1 <= old(g_options).maxNumberOfJobs <= 0x10000, old(hp)@.asked == old(hp)@.released
    ensures fresh_executor(final(hp)@, this), procs(final(hp)@, this).len() == old(g_options).maxNumberOfJobs
//@loop 1
    invariant 0 <= i <= g_options.maxNumberOfJobs, *g_options == *old(g_options), this != 0, hp@.TargetExecutor.dom().contains(this), procs(hp@, this).len() == i, procs(hp@, this).no_duplicates(), hp@.asked == hp@.released, te(hp@, this).m_jobClient == 0, te(hp@, this).m_pendingTargets@.len() == 0, te(hp@, this).m_depgraph != 0, hp@.DependencyGraph.dom().contains(te(hp@, this).m_depgraph),
        forall|p: u64| #[trigger] procs(hp@, this).contains(p) ==> p != 0 && hp@.CommandExecutor.dom().contains(p) && !active(hp@, p),
    ensures procs(hp@, this).len() == g_options.maxNumberOfJobs,
    decreases g_options.maxNumberOfJobs - i
//@body 1
    let ghost hb = hp@;
//@loop 2
    invariant 0 <= fe2_i <= fe2_c@.len(),
    decreases fe2_c@.len() - fe2_i
//@end 1
    proof { let a = procs(hb, this); let b = procs(hp@, this); assert(b == a.push(executor)); assert(!a.contains(executor));
        assert forall|p: u64| #[trigger] b.contains(p) implies p != 0 && hp@.CommandExecutor.dom().contains(p) && !active(hp@, p) by { let k = choose|k: int| 0 <= k < b.len() && b[k] == p; if k < a.len() { assert(a[k] == p); assert(a.contains(p)); } }
        assert forall|k: int, l: int| 0 <= k < b.len() && 0 <= l < b.len() && k != l implies b[k] != b[l] by { if k < a.len() { assert(a.contains(a[k])); } if l < a.len() { assert(a.contains(a[l])); } } }
//@endfn
