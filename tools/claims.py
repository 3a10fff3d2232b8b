"""Which units and harness decide which property."""
CLAIMS = {
 'C01': {'units': ['C01'], 'level': 'proof', 'secs': 12},
 'C02': {'units': ['C02'], 'level': 'proof', 'secs': 12, 'assumptions': ['names of environment variables are compared exactly in the proof (ProcessEnvironment compares them without case)', 'the regular expression that tells valid macro names is sampled by the harness, not proved', 'no environment variable has a $ in its name (history lemmas only)']},
 'C03': {'units': ['C03'], 'level': 'proof', 'secs': 12},
 'C04': {'units': ['C04'], 'level': 'proof', 'secs': 12, 'assumptions': ['the scanner generated by flex (yylex and its tables) cuts the text into words as its contract says, reports the end of the text by 0, and leaves its start state only inside an unterminated string or DEFINED(; the harness compares it with its own scanner', 'that every well formed expression is accepted is seen by the bounded run only; proved is: what is accepted is well formed and has the value of its tree, and parse ends', 'memory is never exhausted (realloc succeeds); the strings of the value stack are treated as values (who deletes them is not tracked)', 'an expression has less than 2^28 words', 'a signed overflow or a shift by a strange distance yields some value']},
 'C05': {'units': ['C05'], 'level': 'proof', 'secs': 15, 'assumptions': ['QFile and QTextStream deliver the text of the file (QFile::readLine with a buffer: at most max-1 bytes up to and including the next newline; Text mode and the codec are Qt)', 'a makefile has less than 2^30 bytes', 'the text of an inline file read line by line contains no zero byte', 'the loop of Preprocessor::readLine that joins ordinary lines is under contract in C03 without the joined text; the joined text of whole makefiles is compared by the bounded differential run']},
 'C06': {'units': ['C06'], 'level': 'proof', 'secs': 10},
 'C07': {'units': ['C07'], 'level': 'proof', 'secs': 10, 'assumptions': ['the loop of Parser::apply that calls the check for every target to be built is seen by the bounded run only', 'dependents that inference rules add later are not part of the graph']},
 'C08': {'units': ['C08'], 'level': 'proof', 'secs': 12, 'assumptions': ['one dependency graph exists at a time (TargetExecutor owns the only one)', 'isTargetUpToDate and applyInferenceRules are seen through their frame: they leave the graph, the owners of targets and the table of targets alone (what they decide is C12 and C16)', 'the makefile has passed the cycle check (C07): the liveness lemma and the termination of internalBuild and markParentsRecursivlyUnbuildable rest on it', 'how TargetExecutor uses the graph (a target that runs is removed once, when it finishes) is seen by C10']},
 'C09': {'units': ['C09', 'C09b', 'C09c'], 'level': 'proof', 'secs': 12, 'assumptions': ['one TargetExecutor exists at a time; while a nested event loop or a wait runs, only the handlers of this executor change its state, and each keeps the invariant (they are under contract)', 'CommandExecutor::start either throws before anything runs or leaves a running target or reports its end (the code of CommandExecutor is under contract in C11)', 'QSystemSemaphore counts tokens and its operations do not fail', 'JobServer::start and JobClient::start (unit C09b) and initJobServer (unit C09c) are proved with the environment as a value: the pointer to it is not shared with anything they call; a semaphore opened by key is the one created with that key; the address used as a random number is any number', 'the number of jobs is at most 65536']},
 'C10': {'units': ['C10', 'C10b'], 'level': 'proof', 'secs': 12, 'assumptions': ['marking what needs a failed target is proved in unit C10b on the links between nodes, the other operations of DependencyGraph are taken from contracts that restate what C08 proves about them (there in terms of nodes, here of targets): a target is handed out once, when nothing it needs is left; leaves leave the graph when removed or when up to date', 'CommandExecutor::start throws before anything runs or leaves a running target or reports its end; while a nested event loop or a wait runs, only the handlers under contract change the state', 'the number of tokens outstanding stays below 2^31 (C09)', 'a target that became up to date through a failing command counts as up to date when several targets are requested; the property speaks of one requested target at a time']},
 'C11': {'units': ['C11'], 'level': 'proof', 'secs': 12, 'assumptions': ['Process::start either leaves a running process, whose end is reported once through onProcessFinished, or reports the error through onProcessError before it returns', 'what is done when finished is emitted does not start this executor again before the handlers return (TargetExecutor::onChildFinished under contract in C09 and C10 starts targets by queued calls only)', 'expanding file name macros and writing inline files keep the number of commands', 'when neither the program nor the shell can be started jom ends by qFatal', 'texts of messages (QByteArray, QDir) are not looked into']},
 'C12': {'units': ['C12'], 'level': 'proof', 'secs': 10, 'assumptions': ['file time stamps do not change during one decision; the files themselves are seen through the contract of FastFileInfo']},
 'C13': {'units': ['C13'], 'level': 'proof', 'secs': 10},
 'C14': {'units': ['C14'], 'level': 'proof', 'secs': 12, 'assumptions': ['no command line argument is empty', 'two long options written together (/NOLOGODEBUG) are not judged', 'MacroTable definitions and the reading of command files are taken from their contracts (decided by C02 and C19)']},
 'C15': {'units': ['C15'], 'level': 'proof', 'secs': 12, 'assumptions': ['every file name macro invocation in the expanded text is complete (macro expansion produces no other, except for $$(@ without a closing parenthesis in a dependents line)', 'QFileInfo::baseName and fileName are taken as they are; file time stamps do not change while one text is expanded']},
 'C16': {'units': ['C16', 'C16b', 'C16c'], 'level': 'proof', 'secs': 12, 'assumptions': ['std::stable_sort sorts stably by the comparator under contract', 'the order in which QHash yields extensions that differ in case only is arbitrary; ties between such rules are not judged', 'in unit C16b (preselectInferenceRules, createTarget) the rules that fit a name are a function of the name, as unit C16 proves of findRulesByTargetName; dependents carry no quotes (split_append_helper removes them) and the graph is acyclic (C07)', 'the rule index built in Parser::apply and the distribution of a batch over several targets are seen by the bounded run only']},
 'C17': {'units': ['C17'], 'level': 'proof', 'secs': 10},
 'C18': {'units': ['C18'], 'level': 'proof', 'secs': 10},
 'C19': {'units': ['C19', 'C19b'], 'level': 'proof', 'secs': 10, 'assumptions': ['the command files do not change while the arguments are read; the argument @ alone is not judged; a file is read line by line as QFile::readLine documents']},
 'C20': {'units': ['C20'], 'level': 'proof', 'secs': 10},
 'C21': {'units': ['C21'], 'level': 'proof', 'secs': 10, 'assumptions': ['a Process starts out with collected output (its constructor) and passes output on directly exactly while isBufferedOutputSet() is false', 'no other code of the program switches the output of a process (CommandExecutor::start, waitForFinished and waitForJobClient keep the switches except through onChildFinished, which is under contract)']},
    'C22': {'units': ['C22', 'C22b'], 'level': 'proof', 'secs': 10, 'assumptions': ['the lines below a command are those Preprocessor::readLine returns in inline file mode (C02, C03 and C06 judge it); in this mode the text of a line is not joined with the next one', 'MacroTable::expandMacros expands as C05 says', 'the regular expression the options behind << are split with is one blank (checked by the harness only)', 'files are written, closed and removed without errors once they could be opened; a file that does not exist can be created under the chosen name (nobody else creates it in between)', 'the loop that looks for a new name ends']},
    'C23': {'units': ['C23'], 'level': 'proof', 'secs': 10, 'assumptions': ['QMap keeps one entry per key under operator< of the key (under contract) and its iterator visits every entry once; the order of the variables in the block is not judged', 'the block has less than 2 GB', 'QString::compare without case compares the case-folded texts; folding keeps the number of characters', 'that Process::start hands the block to the operating system is not judged (Windows API)']},
}
