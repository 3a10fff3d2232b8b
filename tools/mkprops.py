#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
J='src/jomlib/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":[J+f if not f.startswith('src/') else f for f in files],
       "mechanism":[{"name":n,"where":(J+w)} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Macro expansion is the recursive substitution the manual describes, and ends",
  "Expanding a text copies every character that is not part of a macro invocation, turns $$ into $, replaces $X and $(NAME) by the fully expanded value of the macro (nothing if it is undefined), applies $(NAME:before=after) to the expanded value by replacing every occurrence (before ends at the last =, carets are removed from after, and ^) does not end it), and hands $@ $* $? $< and their $(...) forms on untouched for later. A macro whose expansion needs itself is reported as a cycle, whatever the depth, and a macro used twice side by side is not; an unterminated $(, an empty name or $ followed by any other character is an error. Expansion always ends and never reads outside the text.",
  ["inputs"],"every text, every table of macro definitions, and both expansion modes (ordinary text and the dependents of a target)",
  "The unit tests expand a handful of fixed strings over small tables; nesting depth, adjacency, escapes at the end of the text and cyclic tables form an infinite space that they only sample.",
  ["macrotable.cpp","macrotable.h"],
  [("expandMacros","macrotable.cpp"),("cycleCheckedMacroValue","macrotable.cpp"),("parseSubstitutionStatement / applySubstitution","macrotable.cpp")],
  [("macro table","name to value"),("macros in use","names on the current expansion path")])

p("C02","Precedence of macro definitions and their effect on the environment",
  "After any sequence of definitions, a macro given on the command line keeps the command-line value whatever the makefile assigns, with /E an environment variable keeps its environment value against the makefile, and otherwise the latest valid assignment wins; $(NAME) inside a new value of NAME stands for the old value. Environment variables become macros under upper-case names and never overwrite an already defined macro. Command-line definitions and accepted environment variables reach the environment of executed commands with their expanded value, and no other variable of that environment is altered.",
  ["histories","inputs"],"every sequence of environment, command-line, predefined and makefile definitions and undefinitions, with every name and value",
  "Tests define one or two macros in one fixed order; the rule is about all histories of definitions from several sources.",
  ["macrotable.cpp","macrotable.h"],
  [("setMacroValueImpl / internalSetMacroValue","macrotable.cpp"),("defineEnvironmentMacroValue","macrotable.cpp"),("defineCommandLineMacroValueImpl","macrotable.cpp")],
  [("macro table","name to value, source and read-only mark"),("environment","variables handed to executed commands")])

p("C03","Conditional directives deliver exactly the lines of the branch taken",
  "For every nesting of !IF, !IFDEF, !IFNDEF, !ELSE, !ELSEIF, !ELSEIFDEF, !ELSEIFNDEF and !ENDIF, exactly the lines of the first branch whose condition holds (or of the !ELSE branch when none holds) are delivered, in their order, and no directive inside a skipped branch takes effect. An !ELSE or !ENDIF without an open conditional and an end of input inside a delivered branch are errors.",
  ["inputs","programs"],"every makefile text, every nesting depth and every outcome of the conditions",
  "The tests use a few fixed makefiles with shallow nesting; the property concerns every nesting and every combination of outcomes.",
  ["preprocessor.cpp","preprocessor.h"],
  [("parsePreprocessingDirective","preprocessor.cpp"),("skipUntilNextMatchingConditional","preprocessor.cpp"),("enterConditional / exitConditional","preprocessor.cpp"),("readLine","preprocessor.cpp")],
  [("conditional stack","one entry per open conditional: may a later branch still be taken"),("lines put back","directive lines to be read again")])

p("C04","!IF expressions have the value their operators give and bad ones are errors",
  "An !IF expression is built from decimal numbers, parentheses, DEFINED(name), the prefix operators - ~ ! applied to a number, a DEFINED or a parenthesised expression, and binary operators, all left associative, in these levels from the tightest to the loosest: * / %; + -; << >>; == != < > <= >=; && || & |. At the loosest level an operand may also be a comparison of two quoted strings by == or != (\"\" inside a string is one quote). Its value is computed over 32-bit integers (comparisons, ! && || and DEFINED give 0 or 1). Text which is not of this form (an unterminated string, a missing operand or parenthesis, a second prefix operator, an empty text) and a division or a remainder by zero are reported as errors. No expression makes the program crash or hang, and the outcome does not depend on the expressions evaluated before. Not specified: the value after an overflow or a shift by less than 0 or more than 31, and characters which belong to no token.",
  ["inputs"],"every expression text: every operator combination, nesting depth and operand value, and every sequence of expressions",
  "The tests evaluate a fixed list of about sixty expressions; a wrong precedence, a table entry, a deep nesting or an extreme operand outside this list goes unseen.",
  ["ppexprparser.cpp","ppexprparser.h","ppexpr_grammar.cpp","ppexpr_grammar_p.h","ppexpr-lex.inc"],
  [("parse (table driven LALR parser)","ppexprparser.cpp"),("grammar tables","ppexpr_grammar.cpp"),("scanner","ppexpr-lex.inc")])

p("C05","Physical lines become logical lines without loss, in every encoding",
  "A line ending in a backslash is joined to the next with one space, one ending in a caret with a newline, leading blanks of the continuation being dropped (the lines of a directive are joined as they are), while ^\\ at the end stands for a backslash and a doubled backslash is kept as it is; lines starting with # vanish and every other character is kept in order. 8-bit and Unicode makefiles with the same text give the same lines. No line length, missing final newline or end of file in a continuation makes the reader lose, repeat or overrun anything.",
  ["inputs"],"every file content: every line length (including around the internal buffer sizes), every line ending and both readers",
  "The tests read a few short files; buffer growth, end-of-file placement and line lengths around the buffer sizes are not reached.",
  ["makefilelinereader.cpp","makefilelinereader.h","preprocessor.cpp"],
  [("readLine_impl_local8bit","makefilelinereader.cpp"),("readLine_impl_unicode","makefilelinereader.cpp"),("joinLines / joinPreprocessingDirectiveLines / completeLineImpl / leftTrimmed","preprocessor.cpp")])

p("C06","Included files are found in the documented order and include cycles are errors",
  "An include names the file as given if it exists, otherwise the first existing match relative to the directories of the including makefiles from the innermost outwards, and only for <...> then the directories of the INCLUDE macro in order; if nothing matches it is an error. The lines of an included file are delivered at the place of the directive and reading then continues after it. Including a file that is currently being read, at any distance, is an error instead of endless reading.",
  ["inputs","configurations"],"every nesting of including files, every arrangement of existing and missing files, and every INCLUDE value",
  "The tests that include files do not run on this platform, and they use one fixed directory arrangement.",
  ["preprocessor.cpp"],
  [("internalOpenFile","preprocessor.cpp"),("findIncludeFile","preprocessor.cpp"),("basicReadLine","preprocessor.cpp")],
  [("file stack","files being read, with their directories")])

p("C07","Cyclic dependencies between targets are detected, acyclic ones accepted",
  "A makefile is rejected with a cycle error exactly when some target reachable from the targets to be built depends on itself through the dependents of any number of description blocks. The check ends on every dependency graph, leaves acyclic graphs usable for building, and does not depend on the order of targets or dependents.",
  ["inputs"],"every finite dependency graph, including shared subtrees, self loops, unknown dependents and several active targets",
  "Two fixed makefiles are tested; cycles behind shared subtrees, long cycles and several start targets are not.",
  ["parser.cpp"],
  [("checkForCycles","parser.cpp"),("resetCycleChecker","parser.cpp"),("apply","parser.cpp")],
  [("visited mark","target is on the path currently searched"),("no-cycle mark","nothing reachable from the target is cyclic")])

p("C08","A target is handed out only after all its prerequisites, and only once",
  "Whatever the order in which running targets finish, a target is handed out for building only when every prerequisite of it in the graph has finished or was found up to date, no target is handed out twice, and every target reachable from the requested one is eventually handed out or found up to date. Removing a finished target leaves the graph consistent: parent and child links mirror each other and the ready set is exactly the set of targets with no unfinished prerequisite.",
  ["schedules","inputs"],"every acyclic dependency graph, every completion order and every outcome of the up-to-date test",
  "No test executes a build here, and the black-box tests run a few graphs with whatever completion order happens.",
  ["dependencygraph.cpp","dependencygraph.h"],
  [("build / internalBuild / addEdge / createNode","dependencygraph.cpp"),("removeLeaf / deleteNode","dependencygraph.cpp"),("findAvailableTarget","dependencygraph.cpp")],
  [("nodes","one per target not finished yet, with parents and children"),("leaves","nodes without unfinished prerequisites")])

p("C09","Never more concurrent jobs than /J allows, and job tokens are never lost",
  "At every moment at most one running target of a process uses that process's own implicit job slot and every further one holds a token acquired from the shared job server (which is created with one token less than jobs are allowed, once by the topmost jom, and anew by a sub jom only when its /J names another number than the inherited one), so no process starts a target beyond its own executors or without a slot. A token is returned once, when a target finishes, and no token is returned that was not acquired (a process that runs nothing any more but still waits for a token hands its own slot to the server). The build ends only when nothing runs and no token is on its way, and then all tokens are back, also after a failure.",
  ["schedules","fault_sequences"],"every interleaving of target completions, token arrivals, failing commands and aborted builds",
  "Scheduling is not exercised by the tests that run here; the black-box tests see only the schedules of one machine.",
  ["targetexecutor.cpp","targetexecutor.h","jobclient.cpp","jobserver.cpp"],
  [("startProcesses / buildNextTarget / onChildFinished / waitForJobClient","targetexecutor.cpp")],
  [("acquisition count","tokens acquired and not yet released"),("available executors","executors that run nothing")])

p("C10","A failed command fails the build, and /K still builds only what does not need it",
  "If any command fails, the build ends with a nonzero exit code. Without /K no further target is started (running ones are waited for); with /K every target that depends on the failed one directly or indirectly is left unbuilt, and every other target that a requested target needs is still built. If no command fails and every target can be started, the exit code is zero.",
  ["schedules","fault_sequences"],"every dependency graph, every set of failing commands and every completion order",
  "The tests that start jom cannot run here and try one makefile.",
  ["targetexecutor.cpp","dependencygraph.cpp"],
  [("onChildFinished / finishBuild / findNextTarget / startProcesses","targetexecutor.cpp"),("markParentsRecursivlyUnbuildable / isUnbuildable","dependencygraph.cpp")],
  [("all-successful flag","no command failed so far"),("unbuildable mark","some prerequisite of the node failed")])

p("C11","The commands of a target run one after another, and stop at the first failure",
  "The commands of a target are started in their order, each only after the previous one has finished. A command that exits with a code above the one its - modifier allows, or that crashes or cannot be started as allowed, ends the target as failed and no later command of it starts; otherwise the target ends as successful after its last command, and completion is reported exactly once. A dry run starts nothing.",
  ["fault_sequences","inputs"],"every list of commands, every sequence of exit codes and crashes, and every mix of built-in and external commands",
  "Process execution is not tested here; the black-box tests use two or three fixed exit codes.",
  ["commandexecutor.cpp","commandexecutor.h"],
  [("start / onProcessFinished / onProcessError / executeCurrentCommandLine / finishExecution","commandexecutor.cpp")],
  [("current command index","the command being executed")])

p("C12","A target counts as up to date exactly when nothing it depends on is newer",
  "A target is taken as up to date only if its file exists and none of its dependents, including existing files that an unused inference rule would add, is newer, missing or an unbuilt pseudo target with commands; a target without dependents is up to date exactly when its file exists. The test itself does not change the list of dependents or rules of the target.",
  ["inputs","configurations"],"every combination of existing and missing files, every order of timestamps including equal ones, and every kind of dependent",
  "No file exists for the code in this test environment, so the decision is never exercised; elsewhere tests use a few timestamps.",
  ["dependencygraph.cpp","filetime.cpp","filetime.h"],
  [("isTargetUpToDate","dependencygraph.cpp"),("FileTime comparison","filetime.cpp")])

p("C13","Command modifiers are stripped and recorded exactly",
  "The leading @, - and ! characters of a command, in any number and order, and the number directly after a - are removed and the rest of the command is kept unchanged. The command is silent exactly if an @ was among them (or it was silent before), executed once per dependent exactly if a ! was among them, and tolerates exit codes up to the number after the last -, every exit code if no number follows it.",
  ["inputs"],"every command line and every initial setting of the command",
  "The tests try a few modifier strings.",
  ["makefile.cpp"],[("evaluateModifiers","makefile.cpp")])

p("C14","Options mean the same on the command line and when passed on in MAKEFLAGS",
  "Every documented option letter sets exactly its own setting, in upper or lower case, alone or combined with others, and file, macro and target arguments are taken from the right place. The MAKEFLAGS value produced from any accepted command line, when read back by a sub-make, gives the same settings for every option it carries, including the number of jobs. Unknown options, missing arguments and job counts that are not positive numbers are refused.",
  ["inputs"],"every list of arguments",
  "The tests check a dozen argument lists, and none reads the produced MAKEFLAGS back.",
  ["options.cpp","options.h"],
  [("readCommandLineArguments / handleCommandLineOption","options.cpp")])

p("C15","File name macros expand to the right names, everywhere they occur",
  "Every $@ $* $** $? and its $(...D) $(...B) $(...F) $(...R) and :before=after forms in a command is replaced by exactly the target, the target without extension, all dependents, or the dependents that are not older than the target, joined by spaces with names containing blanks quoted; every other character of the command is kept. Adjacent macros, empty values and macros preceded by ^ make no difference to the others. With a ! command, each generated command gets exactly one dependent, in order.",
  ["inputs"],"every command text, every target name and list of dependents, and every position of macros in the text",
  "The tests of this function do not run on this platform and use separated macros with non-empty values.",
  ["makefile.cpp"],
  [("expandFileNameMacros (three forms)","makefile.cpp"),("getFileNameMacroValues","makefile.cpp"),("joinFileNameMacroValues / quoteStringIfNeeded","makefile.cpp")])

p("C16","The inference rule applied is the one .SUFFIXES and existing sources select",
  "A target without commands gets the commands of an inference rule exactly if some rule has its extension and directory, a from-extension listed in .SUFFIXES, and an existing source file; among these the one whose from-extension comes first in .SUFFIXES is chosen, and the source becomes a dependent exactly once. Extensions are compared without regard to case, and a target that has commands of its own keeps them.",
  ["inputs","configurations"],"every set of rules, suffix list, target name and set of existing files",
  "The inference rule tests do not run on this platform and each fixes one rule set.",
  ["makefile.cpp","parser.cpp"],
  [("calculateInferenceRulePriorities / filterRulesByDependent / applyInferenceRules / applyInferenceRule / inferredDependent","makefile.cpp"),("findRulesByTargetName / preselectInferenceRules","parser.cpp")])

p("C17","Description block lines are split at the right place",
  "A line is a description block exactly if it does not start with a blank and has a colon outside parentheses that is not the colon of a drive letter, and it is split at the first such colon (a doubled colon counting as one separator); an unquoted semicolon starts a command. An unquoted # that no ^ precedes ends the line as a comment unless it is inside the command, and ^# in front of the command stands for #. Target and dependent lists are split at unquoted blanks, quotes are removed, and no name is lost, duplicated or reordered.",
  ["inputs"],"every line of text",
  "The tests parse a few makefiles; the combinations of quotes, parentheses, drive letters, comments and semicolons are not covered.",
  ["parser.cpp","helperfunctions.h"],
  [("isDescriptionBlock / removeCommentsAndFindCommandSeparator","parser.cpp"),("splitTargetNames / split_append_helper","parser.cpp")])

p("C18","A # starts a comment unless it is escaped, and ^# always stands for #",
  "In a macro value or directive, the text from the first # that is not preceded by ^ to the end of the line is removed together with blanks around the rest, every ^# before it becomes #, and all other characters are kept. A line without such a # only has its ^# replaced.",
  ["inputs"],"every line of text",
  "A few fixed lines are tested.",
  ["preprocessor.cpp"],
  [("removeInlineComments","preprocessor.cpp")])

p("C19","Command files are split into exactly the arguments written in them",
  "The text of a command file line is split at blanks outside double quotes, double quotes group and are removed, a doubled double quote stands for one quote character, blanks at the ends of an argument and empty arguments are dropped, an unclosed quote ends with the text, and no other argument is lost, invented, merged or reordered. The arguments of the command files named with @ (a further @ file in them is left out) follow the other arguments in the order of the files, and a file that cannot be read is an error.",
  ["inputs"],"every line of text",
  "Seven fixed strings are tested.",
  ["helperfunctions.cpp","options.cpp"],
  [("splitCommandLine","helperfunctions.cpp"),("expandCommandFiles","options.cpp")])

p("C20","Macro assignments are told apart from rules",
  "A line is taken as a macro assignment exactly if it starts like a macro name and has an = outside parentheses before any colon outside parentheses; then the name is the trimmed text before that = and the value the trimmed text after it without its comment. Every other line is left for the parser unchanged.",
  ["inputs"],"every line of text",
  "Only a few assignments and rules occur in the test makefiles.",
  ["preprocessor.cpp"],
  [("parseMacro","preprocessor.cpp")])

p("C21","At most one running target writes directly to the console",
  "At every moment at most one executor passes the output of its command straight to the console while all others collect theirs, so the output of targets that run at the same time is never interleaved; as long as executors exist, one of them is the direct one.",
  ["schedules"],"every order in which running targets start and finish",
  "No test executes a build here; interleaving depends on the schedule.",
  ["targetexecutor.cpp"],
  [("onChildFinished","targetexecutor.cpp"),("constructor","targetexecutor.cpp")],
  [("buffered flag of each executor","output is collected until the command ends")])

p("C22","Inline files hold exactly the text between the << lines",
  "For a command with << markers, the n-th inline file gets exactly the lines up to the n-th line starting with <<, in order, with macros expanded for ordinary rules and each line ended by CR LF, its name is the word directly after << (without quotes), and KEEP after the closing << keeps the file. Lines after the last closing << are parsed as usual. When the target is built every file is written with exactly this content, under its name or under a new one in the temporary directory; each << of the command, wherever it stands, is replaced by the file's name, quoted if it contains blanks; afterwards every file without KEEP is removed.",
  ["inputs"],"every command line with any number of markers and every following text",
  "One or two fixed inline files are tested.",
  ["parser.cpp","commandexecutor.cpp"],
  [("parseInlineFiles","parser.cpp"),("createTempFiles, cleanupTempFiles","commandexecutor.cpp")])

p("C23","Commands receive exactly the environment jom decided on",
  "The environment block given to a command contains every variable of the environment exactly once, with its value unchanged, in the form NAME=VALUE terminated as the operating system requires, plus only PATH and SystemRoot when they were missing. Variable names differing only in case are the same variable.",
  ["inputs"],"every environment: every number of variables, every name and value",
  "Nothing tests the block that is built.",
  ["jomprocess.cpp","processenvironment.h"],
  [("createEnvBlock","jomprocess.cpp"),("key comparison","processenvironment.h")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
    for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P),'properties')
