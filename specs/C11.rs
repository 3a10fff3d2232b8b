//@sources src/jomlib/commandexecutor.cpp:auto
//@cfg
{'structs': ['Process', 'Command'], 'noise': ['QByteArray', 'ProcessEnvironment', 'QDir'],
 'heap': ['CommandExecutor', 'DescriptionBlock', 'Makefile', 'Options'],
 'fields': {'Process': [], 'Command': ['m_commandLine', 'm_silent', 'm_maxExitCode'], 'CommandExecutor': ['m_pTarget', 'm_active', 'm_process', 'm_currentCommandIdx', 'm_nextWorkingDir', 'm_ignoreProcessErrors'], 'DescriptionBlock': ['m_commands', 'm_pMakefile', 'm_targetName'], 'Makefile': ['m_options'], 'Options': ['dryRun', 'suppressExecutedCommandsDisplay']},
 'heap_ghost': ['live: bool', 'started: Seq<int>', 'reports: Seq<bool>'], 'exceptions': {'Exception': 'QString'}}
//@endcfg
pub type H = HeapV;
pub open spec fn ce(h: H, p: u64) -> CommandExecutor { h.CommandExecutor[p] }
pub open spec fn turn(h: H, p: u64) -> int { ce(h, p).m_currentCommandIdx as int }
pub open spec fn cmds(h: H, p: u64) -> Seq<Command> { h.DescriptionBlock[ce(h, p).m_pTarget].m_commands@ }
pub open spec fn dry(h: H, p: u64) -> bool { h.Options[h.Makefile[h.DescriptionBlock[ce(h, p).m_pTarget].m_pMakefile].m_options].dryRun }
pub open spec fn wf_target(h: H, t: u64) -> bool {
    t != 0 && h.DescriptionBlock.dom().contains(t) && h.DescriptionBlock[t].m_pMakefile != 0 && h.Makefile.dom().contains(h.DescriptionBlock[t].m_pMakefile)
    && h.Makefile[h.DescriptionBlock[t].m_pMakefile].m_options != 0 && h.Options.dom().contains(h.Makefile[h.DescriptionBlock[t].m_pMakefile].m_options) && h.DescriptionBlock[t].m_commands@.len() < 0x7fffffff
}
pub open spec fn wf(h: H, p: u64) -> bool { p != 0 && h.CommandExecutor.dom() =~= set![p] && wf_target(h, ce(h, p).m_pTarget) }
// the command line as it is executed
pub open spec fn line_of(c: Command) -> Seq<u16> { qreplall(c.m_commandLine@, @o"%%", @o"%") }
pub open spec fn bad(c: Command, code: int, crashed: bool) -> bool { let e = if crashed { 2 } else { code }; (if e < 0 { e + 0x1_0000_0000 } else { e }) > c.m_maxExitCode }
// command lines that need no process: rem, : and, alone on the line, cd and set
pub open spec fn quiet(l: Seq<u16>) -> bool { comment(l) || (simple(l) && (builtin(l, @o"cd") || builtin(l, @o"set"))) }
pub open spec fn comment(l: Seq<u16>) -> bool { rx_index(@o"^(:|rem\s)", 0, l) >= 0 }
pub uninterp spec fn simple(l: Seq<u16>) -> bool;
pub uninterp spec fn builtin(l: Seq<u16>, name: Seq<u16>) -> bool;
// command i has been dealt with
pub open spec fn dealt(h: H, p: u64) -> bool { h.started.contains(turn(h, p)) || dry(h, p) || quiet(line_of(cmds(h, p)[turn(h, p)])) }
pub open spec fn at_command(h: H, p: u64) -> bool { wf(h, p) && 0 <= turn(h, p) < cmds(h, p).len() && ce(h, p).m_active && !h.live && in_order(h, p) }
// what was started belongs to this command or an earlier one, in order
pub open spec fn in_order(h: H, p: u64) -> bool { forall|i: int| 0 <= i < h.started.len() ==> 0 <= #[trigger] h.started[i] <= turn(h, p) }
pub open spec fn rising(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
pub open spec fn pushed(r: Seq<bool>, r2: Seq<bool>, b: bool) -> bool { r2 == r.push(b) }
pub open spec fn same_target(h: H, h2: H, p: u64) -> bool { h2.DescriptionBlock == h.DescriptionBlock && h2.Makefile == h.Makefile && h2.Options == h.Options && ce(h2, p).m_pTarget == ce(h, p).m_pTarget && wf(h2, p) }
pub open spec fn running(h: H, h2: H, p: u64) -> bool { same_target(h, h2, p) && h2.live && ce(h2, p).m_active && 0 <= turn(h2, p) < cmds(h2, p).len() && turn(h2, p) >= turn(h, p) && in_order(h2, p) && h2.started.contains(turn(h2, p)) && h2.reports == h.reports }
pub open spec fn ended(h: H, h2: H, p: u64) -> bool { same_target(h, h2, p) && !h2.live && !ce(h2, p).m_active && h2.reports.len() == h.reports.len() + 1 && h2.reports.drop_last() =~= h.reports && (!h2.reports.last() ==> turn(h2, p) == cmds(h2, p).len() || cmds(h2, p).len() == 0) }
pub open spec fn goes_on(h: H, h2: H, p: u64) -> bool { running(h, h2, p) || ended(h, h2, p) }
//@extern CommandExecutor::finished
//@flags heap
    requires this != 0, wf(old(hp)@, this), process == this, !old(hp)@.live, !ce(old(hp)@, this).m_active, !abortMakeProcess ==> turn(old(hp)@, this) == cmds(old(hp)@, this).len() || cmds(old(hp)@, this).len() == 0
    ensures final(hp)@ == (HeapV { reports: old(hp)@.reports.push(abortMakeProcess), ..old(hp)@ })
//@endfn
//@extern CommandExecutor::writeToStandardOutput
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern CommandExecutor::writeToStandardError
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@fn CommandExecutor::finishExecution
//@flags heap
    requires wf(old(hp)@, this), !old(hp)@.live, !commandFailed ==> turn(old(hp)@, this) == cmds(old(hp)@, this).len() || cmds(old(hp)@, this).len() == 0
    ensures ended(old(hp)@, final(hp)@, this), final(hp)@.reports == old(hp)@.reports.push(commandFailed), final(hp)@.started == old(hp)@.started
//@endfn
//@extern Process::setWorkingDirectory
    ensures true
//@endfn
//@extern Process::environment
    ensures true
//@endfn
//@extern CommandExecutor::setEnvironment
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern CommandExecutor::environmentChanged
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern CommandExecutor::isSimpleCommandLine
    ensures res == simple(commandLine@)
//@endfn
//@extern commandLineStartsWithCommand
    ensures res == builtin(str@, searchString@)
//@endfn
//@extern startsWithShellBuiltin
    ensures true
//@endfn
//@extern CommandExecutor::exec_cd
//@flags heap
    requires at_command(old(hp)@, this), !dry(old(hp)@, this)
    ensures final(hp)@ == (HeapV { CommandExecutor: final(hp)@.CommandExecutor, ..old(hp)@ }), final(hp)@.CommandExecutor.dom() == old(hp)@.CommandExecutor.dom(), ce(final(hp)@, this) == (CommandExecutor { m_nextWorkingDir: ce(final(hp)@, this).m_nextWorkingDir, ..ce(old(hp)@, this) })
//@endfn
// a process may be started only when none runs, for the command whose turn it is, and never in a dry run
pub open spec fn process_ok(h: H, p: u64) -> bool { at_command(h, p) && !dry(h, p) }
pub open spec fn up(h: H, h2: H, p: u64) -> bool { h2 == (HeapV { live: true, started: h.started.push(turn(h, p)), ..h }) }
//@extern Process::start
//@flags heap
    requires forall|p: u64| #[trigger] old(hp)@.CommandExecutor.dom().contains(p) ==> process_ok(old(hp)@, p)
    ensures forall|p: u64| #[trigger] old(hp)@.CommandExecutor.dom().contains(p) ==> up(old(hp)@, final(hp)@, p) || (if ce(old(hp)@, p).m_ignoreProcessErrors { final(hp)@ == old(hp)@ } else { goes_on(old(hp)@, final(hp)@, p) })
//@endfn
//@extern Process::isRunning
//@flags heap
    ensures final(hp)@ == old(hp)@, res == old(hp)@.live
//@endfn
//@fn CommandExecutor::executeCurrentCommandLine
//@flags heap
    requires at_command(old(hp)@, this)
    ensures goes_on(old(hp)@, final(hp)@, this)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@entry
    proof { assert(set![this].contains(this)); assert forall|p: u64| #[trigger] hp@.CommandExecutor.dom().contains(p) implies p == this by { assert(set![this].contains(p)); } }
//@post start 1
    proof { if hp@.live && hp@.started.len() == hs.started.len() + 1 && hp@.started.last() == turn(hp@, this) { assert(hp@.started[hs.started.len() as int] == turn(hp@, this)); } }
//@call start 1
    let ghost hs = hp@;
    proof { assert(wf(hp@, this)); assert(at_command(hp@, this)); assert(process_ok(hp@, this)); assert forall|p: u64| #[trigger] hp@.CommandExecutor.dom().contains(p) implies p == this by { assert(set![this].contains(p)); } }
//@post start 2
    proof { if hp@.live && hp@.started.len() == hs.started.len() + 1 && hp@.started.last() == turn(hp@, this) { assert(hp@.started[hs.started.len() as int] == turn(hp@, this)); } }
//@call start 2
    let ghost hs = hp@;
    proof { assert(wf(hp@, this)); assert(at_command(hp@, this)); assert(process_ok(hp@, this)); assert forall|p: u64| #[trigger] hp@.CommandExecutor.dom().contains(p) implies p == this by { assert(set![this].contains(p)); } }
//@before 1
    let ghost hl = hp@;
//@loop 1
    invariant hp@ == hl, 0 <= doubleQuoteCount <= 3, 0 <= idx
//@endfn
//@fn CommandExecutor::onProcessFinished
//@flags heap
    requires at_command(old(hp)@, this), dealt(old(hp)@, this)
    ensures goes_on(old(hp)@, final(hp)@, this),
        // a command that failed is the last one
        bad(cmds(old(hp)@, this)[turn(old(hp)@, this)], exitCode as int, exitStatus != 0) ==> final(hp)@.started == old(hp)@.started && final(hp)@.reports == old(hp)@.reports.push(true),
        !bad(cmds(old(hp)@, this)[turn(old(hp)@, this)], exitCode as int, exitStatus != 0) && turn(old(hp)@, this) + 1 == cmds(old(hp)@, this).len() ==> final(hp)@.started == old(hp)@.started && final(hp)@.reports == old(hp)@.reports.push(false),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@endfn
//@fn CommandExecutor::onProcessError
//@flags heap
    requires !ce(old(hp)@, this).m_ignoreProcessErrors ==> at_command(old(hp)@, this) && dealt(old(hp)@, this), this != 0, old(hp)@.CommandExecutor.dom().contains(this)
    ensures if ce(old(hp)@, this).m_ignoreProcessErrors { final(hp)@ == old(hp)@ } else { goes_on(old(hp)@, final(hp)@, this) }
//@endfn
//@extern DescriptionBlock::expandFileNameMacros()
//@flags heap
    ensures final(hp)@ == (HeapV { DescriptionBlock: final(hp)@.DescriptionBlock, ..old(hp)@ }), wf_target(old(hp)@, this) ==> wf_target(final(hp)@, this), final(hp)@.DescriptionBlock[this].m_commands@.len() == old(hp)@.DescriptionBlock[this].m_commands@.len()
//@endfn
//@extern CommandExecutor::cleanupTempFiles
//@flags heap
    ensures final(hp)@ == old(hp)@
//@endfn
//@extern CommandExecutor::createTempFiles
//@flags heap throws
    ensures final(hp)@ == (HeapV { DescriptionBlock: final(hp)@.DescriptionBlock, ..old(hp)@ }), wf(old(hp)@, this) ==> wf(final(hp)@, this), final(hp)@.DescriptionBlock[ce(old(hp)@, this).m_pTarget].m_commands@.len() == old(hp)@.DescriptionBlock[ce(old(hp)@, this).m_pTarget].m_commands@.len()
//@endfn
//@fn CommandExecutor::start
//@flags heap throws
    requires this != 0, old(hp)@.CommandExecutor.dom() =~= set![this], wf_target(old(hp)@, target), !old(hp)@.live, old(hp)@.started.len() == 0, old(hp)@.reports.len() == 0, !ce(old(hp)@, this).m_active
    ensures res is Ok ==> running_now(final(hp)@, this) || ended_now(final(hp)@, this), ce(final(hp)@, this).m_pTarget == target, res is Err ==> !final(hp)@.live && final(hp)@.started.len() == 0 && final(hp)@.reports.len() == 0 && !ce(final(hp)@, this).m_active
//@endfn
pub open spec fn running_now(h: H, p: u64) -> bool { wf(h, p) && h.live && ce(h, p).m_active && 0 <= turn(h, p) < cmds(h, p).len() && in_order(h, p) && h.started.contains(turn(h, p)) && h.reports.len() == 0 }
pub open spec fn ended_now(h: H, p: u64) -> bool { wf(h, p) && !h.live && !ce(h, p).m_active && h.reports.len() == 1 && (!h.reports[0] ==> turn(h, p) == cmds(h, p).len() || cmds(h, p).len() == 0) }
