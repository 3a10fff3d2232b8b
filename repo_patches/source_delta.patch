From 3c191cca1cd0835e01ec325d81366f495f73d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 01/23] fix: a # directly after ^# starts a comment

---
 src/jomlib/preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index b0e001c..c96d14a 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -503,7 +503,7 @@ void Preprocessor::removeInlineComments(QString& line)
     while (true) {
         idx = line.indexOf(QLatin1Char('#'), idx + 1);
         if (idx > 0 && line.at(idx - 1) == QLatin1Char('^')) {
-            line.remove(idx - 1, 1);
+            line.remove(--idx, 1);
             continue;
         }
         break;
-- 
2.43.0


From 6ea1081027df130955d9946e1bbf20222a5022b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 02/23] fix: do not drop the last argument if its double quote
 is not closed

---
 src/jomlib/helperfunctions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jomlib/helperfunctions.cpp b/src/jomlib/helperfunctions.cpp
index 356617f..5a010dd 100644
--- a/src/jomlib/helperfunctions.cpp
+++ b/src/jomlib/helperfunctions.cpp
@@ -59,6 +59,11 @@ QStringList splitCommandLine(QString commandLine)
             }
         }
     }
+    if (insideQuotes) {                     // unterminated quote: the argument ends with the text
+        str = str.trimmed();
+        if (!str.isEmpty())
+            arguments.append(str);
+    }
     return arguments;
 }
 
-- 
2.43.0


From 53d77a284d3a23341597a0c86252ffbbfac55727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 03/23] fix: a caret before the = of a macro substitution must
 not damage the replacement

---
 src/jomlib/macrotable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index ff4d3f6..ae3ea77 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -395,6 +395,7 @@ MacroTable::Substitution MacroTable::parseSubstitutionStatement(const QString &s
         if (ch == QLatin1Char('=')) {
             quoted = false;
             equalsSignIdx = i;
+            quotePositions.clear();
         } else if (ch == QLatin1Char(')') && !quoted) {
             quoted = false;
             macroInvokationEndIdx = i;
-- 
2.43.0


From a95af84a9a5b531f198d1355b5ffca318ed5be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:10 +0000
Subject: [PATCH 04/23] fix: ^# stands for # in description block lines without
 a comment, too

---
 src/jomlib/parser.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 8862405..e656132 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -205,17 +205,22 @@ static int removeCommentsAndFindCommandSeparator(QString& line)
         cmdSepIdx = line.indexOf(QLatin1Char(';'), cmdSepIdx + 1);
     } while (cmdSepIdx >= 0 && quotedVector[cmdSepIdx]);
 
-    if (commentIdx == cmdSepIdx)  // equality means, they are both -1
-        return -1;
-
-    if ((0 <= commentIdx && commentIdx < cmdSepIdx) || cmdSepIdx == -1) {
+    if (0 <= commentIdx && (cmdSepIdx < 0 || commentIdx < cmdSepIdx)) {
         // The # indicates a comment.
         line.truncate(commentIdx);
-        for (int i=toRemove.count() - 1; i >= 0; i--)
-            line.remove(toRemove.at(i), 1);
         cmdSepIdx = -1;
     } else {
-        // The # is inside the command and not a comment.
+        // There is no # or it is inside the command and not a comment.
+    }
+
+    // Remove the ^ characters that precede a # in front of the command.
+    for (int i=toRemove.count() - 1; i >= 0; i--) {
+        if (cmdSepIdx >= 0) {
+            if (toRemove.at(i) > cmdSepIdx)
+                continue;
+            --cmdSepIdx;
+        }
+        line.remove(toRemove.at(i), 1);
     }
     return cmdSepIdx;
 }
-- 
2.43.0


From a85562c1316a793cbc6ef4aeb178d2cdb3d62ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:54 +0000
Subject: [PATCH 05/23] fix: do not miss a file name macro that follows an
 empty one

---
 src/jomlib/makefile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index c06cb7c..80a593e 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -229,6 +229,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                                                              depIdx, dependentsForbidden);
             if (macroValues.isEmpty()) {
                 str.remove(idx - 1, replacementLength + 3);
+                --idx;
             } else {
                 ch = str.at(idx + replacementLength + 1).toLatin1();
                 switch (ch)
@@ -292,15 +293,18 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
 
                 const QString macroValue = joinFileNameMacroValues(macroValues);
                 str.replace(idx - 1, replacementLength + 4, macroValue);
+                idx += macroValue.length() - 1;
             }
         } else {
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx), replacementLength,
                                                              depIdx, dependentsForbidden);
             if (macroValues.isEmpty()) {
                 str.remove(idx - 1, replacementLength + 1);
+                --idx;
             } else {
                 const QString macroValue = joinFileNameMacroValues(macroValues);
                 str.replace(idx - 1, replacementLength + 1, macroValue);
+                idx += macroValue.length() - 1;
             }
         }
     }
-- 
2.43.0


From e10c2541160f226cfe64f60242b69bf408d6e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:10 +0000
Subject: [PATCH 06/23] fix: keep the character after a $(@) without modifier

---
 src/jomlib/makefile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 80a593e..dfce0da 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -271,6 +271,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                 case ')':
                     // No file name modifier given.
                     substitutionStateKnown = true;
+                    --replacementLength;     // because we're later adding 4
                     break;
                 default:
                     // TODO: yield error? ignore for now
-- 
2.43.0


From c9697ee7685407831427519a6aa45a7b3c835970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:26 +0000
Subject: [PATCH 07/23] fix: remove file name macros with modifiers completely
 if they expand to nothing

---
 src/jomlib/makefile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index dfce0da..9718ea3 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -227,7 +227,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             bool substitutionStateKnown = false;
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx+1), replacementLength,
                                                              depIdx, dependentsForbidden);
-            if (macroValues.isEmpty()) {
+            if (replacementLength == 0) {   // not a file name macro we know
                 str.remove(idx - 1, replacementLength + 3);
                 --idx;
             } else {
-- 
2.43.0


From 71eb84796566b1d36be018576ca9412b6d0e94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 08/23] fix: a repeated /J option must hand the last job count
 on in MAKEFLAGS

---
 src/jomlib/options.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index 01ce796..f74af7a 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -304,8 +304,9 @@ bool Options::handleCommandLineOption(const QStringList &originalArguments, QStr
                         return false;
                     }
                     g_options.isMaxNumberOfJobsSet = true;
-                    if (makeflags.at(makeflags.count() - 1).toUpper() == QLatin1Char('J'))
-                        makeflags += nJobsStr;
+                    if (makeflags.at(makeflags.count() - 1).toUpper() != QLatin1Char('J'))
+                        makeflags.append(ch);   // the last job count wins
+                    makeflags += QString::number(g_options.maxNumberOfJobs);
                     break;
                 }
             case 'K':
-- 
2.43.0


From 4ed04266c335126c7456e303dbaa250a2c8b1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:17 +0000
Subject: [PATCH 09/23] fix: flags in MAKEFLAGS must not read back as the long
 option /DEBUG

---
 src/jomlib/options.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index f74af7a..791ef83 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -220,8 +220,13 @@ bool Options::handleCommandLineOption(const QStringList &originalArguments, QStr
             return true;
 
         QChar ch = arg.at(0);
-        if (!makeflags.contains(ch))
-            makeflags.append(ch);
+        if (!makeflags.contains(ch)) {
+            // G goes to the front, because D, E, B, U, G in a row would be read back as /DEBUG
+            if (ch.toUpper() == QLatin1Char('G'))
+                makeflags.prepend(ch);
+            else
+                makeflags.append(ch);
+        }
         arg.remove(0, 1);
         switch (ch.toUpper().toLatin1()) {
             case 'F':
-- 
2.43.0


From 9e2e1cd42cdf813504c3d739f3aa722cc5e9be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:32 +0000
Subject: [PATCH 10/23] fix: lines after a second !ELSE of a conditional must
 not be delivered as well

---
 src/jomlib/preprocessor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index c96d14a..a9aaf91 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -282,6 +282,9 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
             error(QLatin1String("unexpected ELSE"));
         if (!m_conditionalStack.top()) {
             skipUntilNextMatchingConditional();
+        } else {
+            m_conditionalStack.pop();
+            m_conditionalStack.push(false);
         }
     } else if (directive == QLatin1String("ELSEIF")) {
         if (conditionalDepth() == 0)
-- 
2.43.0


From 4490788ac9e2453c25b2f20339388a3a622d18c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 11/23] fix: ignore all blanks between !ELSE IFDEF and the
 macro name

The capture of QRegExp keeps additional blanks in front of the macro name, such
that !ELSE IFDEF tested for a macro whose name starts with a blank.
---
 src/jomlib/preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index a9aaf91..92a3ae1 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -402,7 +402,7 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
                                          Qt::CaseInsensitive);
                 if (rex.exactMatch(value)) {
                     directive.append(rex.cap(1).toUpper());
-                    value = rex.cap(2);
+                    value = rex.cap(2).trimmed();
                 }
             }
         }
-- 
2.43.0


From 65769a2f0e3be540afb8b32343e9a4dcb70957bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:17 +0000
Subject: [PATCH 12/23] fix: keep an escaped dollar before (NAME) when NAME is
 redefined

$$(NAME) inside a new value of NAME is an escaped dollar sign followed by
(NAME), not an invocation of the macro NAME.
---
 src/jomlib/macrotable.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index ae3ea77..20292ab 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -155,6 +155,24 @@ void MacroTable::setEnvironmentVariable(const QString& name, const QString& valu
     m_environment[name] = value;
 }
 
+/**
+ * Returns the position of the next occurrence of the macro invocation that's not part of an
+ * escaped dollar sign as in $$(NAME).
+ */
+static int indexOfMacroInvocation(const QString &str, const QString &invocation, int from)
+{
+    int idx = str.indexOf(invocation, from);
+    while (idx >= 0) {
+        int i = idx;
+        while (i > from && str.at(i - 1) == QLatin1Char('$'))
+            --i;
+        if ((idx - i) % 2 == 0)
+            break;
+        idx = str.indexOf(invocation, idx + 1);
+    }
+    return idx;
+}
+
 /**
  * String replace with lazy replacement evaluation.
  * getValue is only called if the search string is present.
@@ -162,12 +180,12 @@ void MacroTable::setEnvironmentVariable(const QString& name, const QString& valu
 template <typename F>
 void replaceStringWithLazyValue(QString &str, const QString &searchString, F getValue)
 {
-    int idx = str.indexOf(searchString);
+    int idx = indexOfMacroInvocation(str, searchString, 0);
     if (idx >= 0) {
         const QString oldValue = getValue();
         do {
             str.replace(idx, searchString.length(), oldValue);
-            idx = str.indexOf(searchString, idx + oldValue.length());
+            idx = indexOfMacroInvocation(str, searchString, idx + oldValue.length());
         } while (idx >= 0);
     }
 }
-- 
2.43.0


From d64ebab9eb4fedf9729635ea1fbd38618ecf10b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:17 +0000
Subject: [PATCH 13/23] fix: pass the stored value of a command line macro to
 the environment

With a value that refers to the macro itself, the environment variable was
computed from the unreplaced value after the macro had been set.
---
 src/jomlib/macrotable.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index 20292ab..d1bf003 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -86,23 +86,25 @@ void MacroTable::defineEnvironmentMacroValue(const QString& name, const QString&
 void MacroTable::defineCommandLineMacroValue(const QString &name, const QString &value)
 {
     defineCommandLineMacroValueImpl(name, value, MacroSource::CommandLine);
-    setEnvironmentVariable(name, expandMacros(value));
 }
 
 void MacroTable::defineImplicitCommandLineMacroValue(const QString &name, const QString &value)
 {
     defineCommandLineMacroValueImpl(name, value, MacroSource::CommandLineImplicit);
-    setEnvironmentVariable(name, expandMacros(value));
 }
 
 void MacroTable::defineCommandLineMacroValueImpl(const QString &name, const QString &value,
                                                  MacroSource source)
 {
+    QString definedValue = value;
     MacroData* macroData = internalSetMacroValue(name, value, true);
-    if (!macroData)
-        return;
-    macroData->source = source;
-    macroData->isReadOnly = true;
+    if (macroData) {
+        macroData->source = source;
+        macroData->isReadOnly = true;
+        // $(NAME) in the value has been replaced by the old value of the macro.
+        definedValue = macroData->value;
+    }
+    setEnvironmentVariable(name, expandMacros(definedValue));
 }
 
 bool MacroTable::isMacroNameValid(const QString& name) const
-- 
2.43.0


From a23bd5eb7aafba74fd6db6aadc99ca1574fceacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:18 +0000
Subject: [PATCH 14/23] fix: read inline files of Unicode makefiles through the
 text stream

The rest of the file is already in the buffer of the text stream, and its
bytes are not Latin-1: text of inline files was lost or garbled.
---
 src/jomlib/makefilelinereader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index ee20d86..9fe4b4d 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -92,6 +92,8 @@ MakefileLine MakefileLineReader::readLine(bool bInlineFileMode)
 {
     if (bInlineFileMode) {
         m_nLineNumber++;
+        if (m_readLineImpl == &NMakeFile::MakefileLineReader::readLine_impl_unicode)
+            return MakefileLine{ m_textStream.readLine() };
         return MakefileLine{ QString::fromLatin1(m_file.readLine()) };
     }
 
-- 
2.43.0


From 1ff8b94bcc57c5c8235eb321570bf317a8f34b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:48 +0000
Subject: [PATCH 15/23] fix: a target with a missing dependent is out of date
 whatever its time stamp

With a time stamp in the future the target was newer than 'now', the
time assumed for missing dependents and pseudo targets with commands.
---
 src/jomlib/dependencygraph.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index bf8cfbc..2552672 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -114,6 +114,7 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
     } else {
         // find latest timestamp of all dependents
         FileTime latestDependentTime;
+        bool dependentOutOfDate = false;
         foreach (const QString& dependentName, target->m_dependents) {
             FileTime ts;
             DescriptionBlock *dependent = target->makefile()->target(dependentName);
@@ -123,6 +124,7 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
                     // Mimic insane nmake behaviour: If the dependent is a pseudotarget
                     // and has commands, then this target is out of date.
                     latestDependentTime = FileTime::currentTime();
+                    dependentOutOfDate = true;
                     break;
                 }
             }
@@ -136,6 +138,7 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
             if (!ts.isValid()) {
                 // File does not exist, so it gets the latest time stamp.
                 latestDependentTime = FileTime::currentTime();
+                dependentOutOfDate = true;
                 break;
             }
 
@@ -146,7 +149,8 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
         if (!target->m_bFileExists)
             target->m_timeStamp = latestDependentTime;
 
-        isUpToDate = (target->m_bFileExists && latestDependentTime <= target->m_timeStamp);
+        isUpToDate = (target->m_bFileExists && !dependentOutOfDate
+                      && latestDependentTime <= target->m_timeStamp);
     }
 
     if (isUpToDate && !target->m_inferenceRules.isEmpty()) {
-- 
2.43.0


From 1981bef60e1b7cb4d23b029e8c5e7762a1890777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:42 +0000
Subject: [PATCH 16/23] fix: let only one of the running targets write directly
 to the console

---
 src/jomlib/targetexecutor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index a6eb9d9..2ca88cd 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -247,6 +247,7 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
             if (cmdex->isActive()) {
                 cmdex->setBufferedOutput(false);
                 found = true;
+                break;
             }
         }
         if (!found)
-- 
2.43.0


From ea28973d37717ba405bd0be4b7943ff72c903d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:42 +0000
Subject: [PATCH 17/23] fix: do not return a job token twice when the build is
 aborted

---
 src/jomlib/targetexecutor.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 2ca88cd..9bca7af 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -185,7 +185,6 @@ void TargetExecutor::waitForJobClient()
     QEventLoop loop;
     connect(m_jobClient, &JobClient::acquired, &loop, &QEventLoop::quit);
     loop.exec();
-    m_jobClient->release();
 }
 
 void TargetExecutor::finishBuild(int exitCode)
-- 
2.43.0


From d4d60cab2d2daae857a6032edff33e5e28a51472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:42 +0000
Subject: [PATCH 18/23] fix: wait for all remaining commands of running targets
 when the build is aborted

---
 src/jomlib/commandexecutor.cpp | 2 +-
 src/jomlib/jomprocess.cpp      | 2 --
 src/jomlib/targetexecutor.cpp  | 6 ++++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index bd10324..f6eb15b 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -71,7 +71,6 @@ CommandExecutor::~CommandExecutor()
 void CommandExecutor::start(DescriptionBlock* target)
 {
     m_pTarget = target;
-    m_active = true;
 
     if (target->m_commands.isEmpty()) {
         finishExecution(false);
@@ -86,6 +85,7 @@ void CommandExecutor::start(DescriptionBlock* target)
     m_currentCommandIdx = 0;
     m_nextWorkingDir.clear();
     m_process.setWorkingDirectory(m_nextWorkingDir);
+    m_active = true;
     executeCurrentCommandLine();
 }
 
diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 1e3335d..eba65c2 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -453,8 +453,6 @@ bool Process::waitForFinished()
     QEventLoop eventLoop;
     connect(this, SIGNAL(finished(int, Process::ExitStatus)), &eventLoop, SLOT(quit()));
     eventLoop.exec();
-
-    m_state = NotRunning;
     return true;
 }
 
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 9bca7af..ebcc365 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -174,8 +174,10 @@ void TargetExecutor::buildNextTarget()
 
 void TargetExecutor::waitForProcesses()
 {
-    foreach (CommandExecutor* process, m_processes)
-        process->waitForFinished();
+    foreach (CommandExecutor* process, m_processes) {
+        while (process->isActive())
+            process->waitForFinished();
+    }
 }
 
 void TargetExecutor::waitForJobClient()
-- 
2.43.0


From f4f2f51f038618007d1f7f3d2554f20b86f1b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:42 +0000
Subject: [PATCH 19/23] fix: return the job tokens and wait for running targets
 if the next target cannot be started

---
 src/jomlib/targetexecutor.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index ebcc365..b2acca9 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -149,6 +149,8 @@ void TargetExecutor::startProcesses()
     } catch (Exception &e) {
         m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
+        waitForProcesses();
+        waitForJobClient();
         finishBuild(1);
     }
 }
@@ -160,14 +162,21 @@ void TargetExecutor::buildNextTarget()
     if (m_bAborted)
         return;
 
+    CommandExecutor *executor = m_availableProcesses.takeFirst();
     try {
-        CommandExecutor *executor = m_availableProcesses.takeFirst();
         executor->start(m_nextTarget);
         m_nextTarget = 0;
         QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
     } catch (const Exception &e) {
         m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
+        m_availableProcesses.prepend(executor);
+        if (m_jobAcquisitionCount > 0) {
+            m_jobClient->release();
+            m_jobAcquisitionCount--;
+        }
+        waitForProcesses();
+        waitForJobClient();
         finishBuild(1);
     }
 }
-- 
2.43.0


From 579b83ae65234395821b0ffb29250170e5659d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:00 +0000
Subject: [PATCH 20/23] fix: report a remainder by zero instead of crashing

---
 src/jomlib/ppexpr.g         | 11 +++++++++--
 src/jomlib/ppexprparser.cpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/ppexpr.g b/src/jomlib/ppexpr.g
index f826008..efbba35 100644
--- a/src/jomlib/ppexpr.g
+++ b/src/jomlib/ppexpr.g
@@ -380,9 +380,16 @@ term5       ::= term5 DIV term6;
 
 term5       ::= term5 MOD term6;
 /.
-    case $rule_number: // $rule
-        sym(1).num %= sym(3).num;
+    case $rule_number: { // $rule
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        sym(1).num = rhs == -1 ? 0 : sym(1).num % rhs;
         break;
+    }
 ./
 
 term6 ::= primary;
diff --git a/src/jomlib/ppexprparser.cpp b/src/jomlib/ppexprparser.cpp
index 7af643b..176b7bf 100644
--- a/src/jomlib/ppexprparser.cpp
+++ b/src/jomlib/ppexprparser.cpp
@@ -215,9 +215,16 @@ bool PPExprParser::parse(const char* str)
         break;
     }
 
-    case 26: // term5
-        sym(1).num %= sym(3).num;
+    case 26: { // term5
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        sym(1).num = rhs == -1 ? 0 : sym(1).num % rhs;
         break;
+    }
 
     case 28: // term6
         sym(1).num = -sym(2).num;
-- 
2.43.0


From 63b887928237fe1d9d995dbebb9a5846ac770094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:00 +0000
Subject: [PATCH 21/23] fix: do not crash on a division of the smallest number
 by -1

---
 src/jomlib/ppexpr.g         | 2 +-
 src/jomlib/ppexprparser.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/ppexpr.g b/src/jomlib/ppexpr.g
index efbba35..03f6180 100644
--- a/src/jomlib/ppexpr.g
+++ b/src/jomlib/ppexpr.g
@@ -373,7 +373,7 @@ term5       ::= term5 DIV term6;
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        sym(1).num = rhs == -1 ? int(0u - unsigned(sym(1).num)) : sym(1).num / rhs;
         break;
     }
 ./
diff --git a/src/jomlib/ppexprparser.cpp b/src/jomlib/ppexprparser.cpp
index 176b7bf..349de2c 100644
--- a/src/jomlib/ppexprparser.cpp
+++ b/src/jomlib/ppexprparser.cpp
@@ -211,7 +211,7 @@ bool PPExprParser::parse(const char* str)
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        sym(1).num = rhs == -1 ? int(0u - unsigned(sym(1).num)) : sym(1).num / rhs;
         break;
     }
 
-- 
2.43.0


From 8a2f736dcaf3d88fd983e6517da19751f4d8de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:00 +0000
Subject: [PATCH 22/23] fix: an unterminated string in an expression is an
 error and does not leak into the next expression

---
 src/jomlib/ppexpr.g         | 3 +++
 src/jomlib/ppexprparser.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/jomlib/ppexpr.g b/src/jomlib/ppexpr.g
index 03f6180..7acf4d6 100644
--- a/src/jomlib/ppexpr.g
+++ b/src/jomlib/ppexpr.g
@@ -164,6 +164,7 @@ bool PPExprParser::parse(const char* str)
     tos = 0;
     m_errorMessage.clear();
     state_stack[++tos] = INITIAL_STATE;
+    BEGIN(INITIAL);
     yyInputBuffer = yy_scan_string(str);
     if (!yyInputBuffer) {
         m_errorMessage = "Can't create lexer's input buffer.";
@@ -174,6 +175,8 @@ bool PPExprParser::parse(const char* str)
     {
         if (yytoken == -1 && - TERMINAL_COUNT != action_index [state_stack [tos]]) {
             yytoken = yylex();
+            if (yytoken == EOF_SYMBOL && YY_START != INITIAL)
+                break;
 #ifdef DEBUG_GRAMMAR
             printf("*** yylex %d\n", yytoken);
 #endif
diff --git a/src/jomlib/ppexprparser.cpp b/src/jomlib/ppexprparser.cpp
index 349de2c..2823856 100644
--- a/src/jomlib/ppexprparser.cpp
+++ b/src/jomlib/ppexprparser.cpp
@@ -65,6 +65,7 @@ bool PPExprParser::parse(const char* str)
     tos = 0;
     m_errorMessage.clear();
     state_stack[++tos] = INITIAL_STATE;
+    BEGIN(INITIAL);
     yyInputBuffer = yy_scan_string(str);
     if (!yyInputBuffer) {
         m_errorMessage = "Can't create lexer's input buffer.";
@@ -75,6 +76,8 @@ bool PPExprParser::parse(const char* str)
     {
         if (yytoken == -1 && - TERMINAL_COUNT != action_index [state_stack [tos]]) {
             yytoken = yylex();
+            if (yytoken == EOF_SYMBOL && YY_START != INITIAL)
+                break;
 #ifdef DEBUG_GRAMMAR
             printf("*** yylex %d\n", yytoken);
 #endif
-- 
2.43.0


From 8e63b228553255bd5f3b47c748b82612ffd288df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:41 +0000
Subject: [PATCH 23/23] fix: a << at the start of a command is replaced by the
 name of the inline file

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index f6eb15b..17d00aa 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -303,7 +303,7 @@ void CommandExecutor::createTempFiles()
             }
 
             int idx = cmd.m_commandLine.indexOf(QLatin1String("<<"));
-            if (idx > 0)
+            if (idx >= 0)
                 cmd.m_commandLine.replace(idx, 2, replacement);
 
             m_tempFiles.append(tempFile);
-- 
2.43.0

