//@sources src/jomlib/targetexecutor.cpp:QEventLoop src/jomlib/jomprocess.cpp:auto src/jomlib/commandexecutor.cpp:auto
//@cfg
{'structs': ['QEventLoop', 'Command', 'FastFileInfo', 'Process', 'GlobalOptions'], 'struct_default': {'QEventLoop': 'nondet_QEventLoop()'}, 'heap': ['TargetExecutor', 'CommandExecutor', 'JobClient', 'DependencyGraph', 'DescriptionBlock', 'Makefile', 'Options'],
 'heap_new': {'CommandExecutor.*': 'new_executor()', 'DependencyGraph.*': 'new_graph()'},
 'fields': {'QEventLoop': [], 'Command': [], 'FastFileInfo': [], 'GlobalOptions': ['maxNumberOfJobs'], 'Process': ['m_bufferedOutput'], 'TargetExecutor': ['m_makefile', 'm_depgraph', 'm_pendingTargets', 'm_jobClient', 'm_bAborted', 'm_jobAcquisitionCount', 'm_availableProcesses', 'm_processes', 'm_nextTarget', 'm_allCommandsSuccessfullyExecuted'],
   'CommandExecutor': ['m_pTarget', 'm_active', 'm_process'], 'JobClient': [], 'DependencyGraph': [], 'DescriptionBlock': ['m_commands', 'm_pMakefile', 'm_targetName'], 'Makefile': ['m_options'], 'Options': ['buildUnrelatedTargetsOnError']},
 'ghost_params': ['g_options: &mut GlobalOptions'], 'globals': {'g_options': ('g_options', 'globalstruct', 'GlobalOptions')}, 'exceptions': {'Exception': 'QString'}}
//@endcfg
pub type H = HeapV;
pub open spec fn te(h: H, e: u64) -> TargetExecutor { h.TargetExecutor[e] }
pub open spec fn procs(h: H, e: u64) -> Seq<u64> { te(h, e).m_processes@ }
pub open spec fn avail(h: H, e: u64) -> Seq<u64> { te(h, e).m_availableProcesses@ }
pub open spec fn direct(h: H, p: u64) -> bool { !h.CommandExecutor[p].m_process.m_bufferedOutput }
pub open spec fn wf(h: H, e: u64) -> bool {
    e != 0 && h.TargetExecutor.dom().contains(e) && te(h, e).m_makefile != 0 && h.Makefile.dom().contains(te(h, e).m_makefile) && h.Makefile[te(h, e).m_makefile].m_options != 0 && h.Options.dom().contains(h.Makefile[te(h, e).m_makefile].m_options)
    && te(h, e).m_jobClient != 0 && te(h, e).m_depgraph != 0
    && lists(h, e)
}
pub open spec fn lists(h: H, e: u64) -> bool {
    (forall|p: u64| #[trigger] procs(h, e).contains(p) ==> p != 0 && h.CommandExecutor.dom().contains(p))
    && (forall|p: u64| #[trigger] avail(h, e).contains(p) ==> procs(h, e).contains(p))
}
// exactly one executor passes its output on directly (x: one that is known to)
pub open spec fn none_but(h: H, e: u64, x: u64) -> bool { forall|p: u64| #[trigger] procs(h, e).contains(p) && direct(h, p) ==> p == x }
pub open spec fn one_direct(h: H, e: u64) -> bool { exists|x: u64| #[trigger] procs(h, e).contains(x) && direct(h, x) && none_but(h, e, x) }
pub open spec fn inv(h: H, e: u64) -> bool { wf(h, e) && one_direct(h, e) }
pub open spec fn only(h: H, e: u64) -> bool { h.TargetExecutor.dom() =~= set![e] }
pub open spec fn kept(h: H, h2: H) -> bool { h2.TargetExecutor.dom() == h.TargetExecutor.dom() && forall|e: u64| #[trigger] h.TargetExecutor.dom().contains(e) && inv(h, e) ==> inv(h2, e) && procs(h2, e) == procs(h, e) }
#[verifier::external_body]
pub fn new_executor() -> (r: CommandExecutor) ensures r.m_process.m_bufferedOutput, !r.m_active { unimplemented!() }
#[verifier::external_body]
pub fn new_graph() -> (r: DependencyGraph) { unimplemented!() }
//@extern TargetExecutor::finished
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern JobClient::release
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern DependencyGraph::removeLeaf(P:DescriptionBlock)
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern DependencyGraph::markParentsRecursivlyUnbuildable(P:DescriptionBlock)
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern DependencyGraph::clear
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern FastFileInfo::clearCacheForFile
    ensures true
//@endfn
//@extern Process::printBufferedOutput
    ensures *final(this) == *old(this)
//@endfn
//@fn Process::setBufferedOutput
    ensures final(this).m_bufferedOutput == b
//@endfn
//@fn CommandExecutor::setBufferedOutput
//@flags heap
    requires this != 0, old(hp)@.CommandExecutor.dom().contains(this)
    ensures final(hp)@ == (HeapV { CommandExecutor: final(hp)@.CommandExecutor, ..old(hp)@ }), final(hp)@.CommandExecutor.dom() =~= old(hp)@.CommandExecutor.dom(), direct(final(hp)@, this) == !b,
        forall|p: u64| p != this ==> #[trigger] final(hp)@.CommandExecutor[p] == old(hp)@.CommandExecutor[p]
//@endfn
//@fn CommandExecutor::isBufferedOutputSet
//@flags heap
    requires this != 0, old(hp)@.CommandExecutor.dom().contains(this)
    ensures final(hp)@ == old(hp)@, res == !direct(old(hp)@, this)
//@endfn
//@extern CommandExecutor::waitForFinished
//@flags heap
    ensures kept(old(hp)@, final(hp)@)
//@endfn
//@extern TargetExecutor::waitForJobClient
//@flags heap
    ensures kept(old(hp)@, final(hp)@)
//@endfn
//@extern CommandExecutor::start
//@flags heap throws
    ensures kept(old(hp)@, final(hp)@)
//@endfn
//@fn TargetExecutor::finishBuild
//@flags heap
    requires wf(old(hp)@, this),
    ensures final(hp)@ == old(hp)@
//@endfn
//@fn TargetExecutor::waitForProcesses
//@flags heap
    requires inv(old(hp)@, this),
    ensures inv(final(hp)@, this), procs(final(hp)@, this) == procs(old(hp)@, this), kept(old(hp)@, final(hp)@)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@loop 1
    invariant fe1_c@ == procs(old(hp)@, this), 0 <= fe1_i <= fe1_c@.len(), inv(hp@, this), procs(hp@, this) == procs(old(hp)@, this), kept(old(hp)@, hp@),
//@body 1
    proof { assert(procs(hp@, this).contains(fe1_c@[fe1_i as int])); }
//@loop 2
    invariant procs(hp@, this).contains(process), inv(hp@, this), procs(hp@, this) == procs(old(hp)@, this), kept(old(hp)@, hp@),
//@endfn
//@fn TargetExecutor::onChildFinished
//@flags heap
    requires inv(old(hp)@, this), procs(old(hp)@, this).contains(executor), old(hp)@.CommandExecutor[executor].m_pTarget != 0, old(hp)@.DescriptionBlock.dom().contains(old(hp)@.CommandExecutor[executor].m_pTarget)
    ensures inv(final(hp)@, this), procs(final(hp)@, this) == procs(old(hp)@, this)
//@entry
    let ghost h0 = hp@; let ghost mut hs = hp@; let ghost y = choose|x: u64| #[trigger] procs(h0, this).contains(x) && direct(h0, x) && none_but(h0, this, x);
//@call isBufferedOutputSet 1
    proof { let a = avail(h0, this); let b = avail(hp@, this); assert(b.contains(executor) && forall|x: u64| #[trigger] b.contains(x) ==> a.contains(x) || x == executor) by {
        assert(b[b.len() - 1] == executor);
        assert forall|x: u64| #[trigger] b.contains(x) implies a.contains(x) || x == executor by { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < a.len() { assert(a[i] == x); } } }
        assert(wf(hp@, this)); assert forall|p: u64| #[trigger] procs(hp@, this).contains(p) && direct(hp@, p) implies p == y by { assert(procs(h0, this).contains(p)); } assert(direct(hp@, y) && procs(hp@, this).contains(y)); assert(inv(hp@, this)); hs = hp@; }
//@before 1
    proof { assert(executor == y); assert forall|p: u64| #[trigger] procs(hp@, this).contains(p) && direct(hp@, p) implies p == 0 by { assert(procs(h0, this).contains(p)); } assert(wf(hp@, this)); }
    let ghost hk = hp@;
//@loop 1
    invariant_except_break !found, hp@ == hk,
    invariant fe1_c@ == procs(hk, this), 0 <= fe1_i <= fe1_c@.len(), wf(hk, this), none_but(hk, this, 0), hp@.TargetExecutor == hk.TargetExecutor, !found ==> hp@ == hk,
    ensures wf(hp@, this), found ==> one_direct(hp@, this) && hs == hp@, !found ==> hp@ == hk,
    decreases fe1_c@.len() - fe1_i
//@body 1
    proof { assert(procs(hk, this).contains(fe1_c@[fe1_i as int])); }
//@call setBufferedOutput 2
    proof { assert(procs(hk, this).contains(cmdex)); }
//@post setBufferedOutput 2
    proof { assert(procs(hk, this) == procs(hp@, this)); assert(procs(hp@, this).contains(cmdex)); assert(direct(hp@, cmdex)); assert(lists(hp@, this)) by { assert forall|p: u64| #[trigger] procs(hp@, this).contains(p) implies hp@.CommandExecutor.dom().contains(p) by { assert(procs(hk, this).contains(p)); } assert forall|p: u64| #[trigger] avail(hp@, this).contains(p) implies procs(hp@, this).contains(p) by { assert(avail(hk, this).contains(p)); } } assert(none_but(hp@, this, cmdex)) by { assert forall|p: u64| #[trigger] procs(hp@, this).contains(p) && direct(hp@, p) implies p == cmdex by { assert(procs(hk, this).contains(p)); } } assert(wf(hp@, this)); hs = hp@; }
//@call setBufferedOutput 3
    proof { hs = hp@; assert(avail(hp@, this).contains(avail(hp@, this)[0])); assert(procs(hp@, this).contains(avail(hp@, this)[0])); assert(avail(hp@, this).contains(avail(hp@, this).last())); assert(procs(hp@, this).contains(avail(hp@, this).last())); }
//@post setBufferedOutput 3
    proof { let z = if direct(hp@, avail(hp@, this)[0]) { avail(hp@, this)[0] } else { avail(hp@, this).last() }; assert(avail(hs, this).contains(z)); assert(procs(hp@, this).contains(z)); assert(none_but(hs, this, 0)); assert(direct(hp@, z)); assert(none_but(hp@, this, z)) by { assert forall|p: u64| #[trigger] procs(hp@, this).contains(p) && direct(hp@, p) implies p == z by { assert(procs(hs, this).contains(p)); } } assert(wf(hp@, this)); hs = hp@; }
//@call waitForProcesses 1
    proof { assert(inv(hs, this)); let z = choose|x: u64| #[trigger] procs(hs, this).contains(x) && direct(hs, x) && none_but(hs, this, x); assert(procs(hp@, this).contains(z) && direct(hp@, z)); assert(none_but(hp@, this, z)) by { assert forall|p: u64| #[trigger] procs(hp@, this).contains(p) && direct(hp@, p) implies p == z by { assert(procs(hs, this).contains(p)); } } assert(lists(hp@, this)) by { assert forall|p: u64| #[trigger] procs(hp@, this).contains(p) implies p != 0 && hp@.CommandExecutor.dom().contains(p) by { assert(procs(hs, this).contains(p)); } assert forall|p: u64| #[trigger] avail(hp@, this).contains(p) implies procs(hp@, this).contains(p) by { assert(avail(hs, this).contains(p)); } } }
//@endfn
//@fn TargetExecutor::TargetExecutor
//@flags heap
    requires this != 0, old(hp)@.TargetExecutor.dom().contains(this), old(g_options).maxNumberOfJobs >= 1
    ensures lists(final(hp)@, this), one_direct(final(hp)@, this), procs(final(hp)@, this).len() == old(g_options).maxNumberOfJobs
//@loop 1
    invariant 0 <= i <= g_options.maxNumberOfJobs, *g_options == *old(g_options), g_options.maxNumberOfJobs >= 1, this != 0, hp@.TargetExecutor.dom().contains(this), procs(hp@, this).len() == i, avail(hp@, this).len() == 0, lists(hp@, this), none_but(hp@, this, 0),
    ensures procs(hp@, this).len() == g_options.maxNumberOfJobs,
    decreases g_options.maxNumberOfJobs - i
//@body 1
    let ghost hb = hp@;
//@loop 2
    invariant 0 <= fe2_i <= fe2_c@.len(),
    decreases fe2_c@.len() - fe2_i
//@end 1
    proof { let a = procs(hb, this); let b = procs(hp@, this); assert forall|p: u64| #[trigger] b.contains(p) implies p != 0 && hp@.CommandExecutor.dom().contains(p) && !direct(hp@, p) by { let k = choose|k: int| 0 <= k < b.len() && b[k] == p; if k < a.len() { assert(a[k] == p); assert(a.contains(p)); } } }
//@call setBufferedOutput 1
    let ghost hs = hp@;
    proof { assert(procs(hp@, this).contains(procs(hp@, this)[0])); }
//@exit
    proof { let z = procs(hs, this)[0]; assert(procs(hp@, this).contains(z)); assert forall|p: u64| #[trigger] procs(hp@, this).contains(p) implies hp@.CommandExecutor.dom().contains(p) && (direct(hp@, p) ==> p == z) by { assert(procs(hs, this).contains(p)); } assert(none_but(hp@, this, z)); }
//@endfn
