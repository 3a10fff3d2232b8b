#include "harness.h"
#include "options.h"
#include "macrotable.h"
#include "exception.h"
#include "helperfunctions.h"
using namespace NMakeFile;
namespace {
struct Settings {
    std::map<char, bool> on;            // option letter -> given
    bool debug = false, version = false, dump = false, dumpdot = false, logo = true;
    bool jobsSet = false; qlonglong jobs = 0;
    QString makefile, errfile; bool makefileSet = false;
    QStringList targets; QList<QPair<QString, QString>> defs;
    bool refused = false;
};
struct Run { Options o; QString makefile; QStringList targets; MacroTable mt; bool ok; int jobs; bool jobsSet; };
}
// what the manual says: 0 judged, 1 not judged
static bool reference(QStringList args, Settings &s)
{
    const QString letters = QLatin1String("ABCDEGHIKLNPQRSTUWY?");
    const char *words[] = {"NOLOGO", "DUMPGRAPHDOT", "DUMPGRAPH", "DEBUG", "ERRORREPORT", "VERSION"};
    while (!args.isEmpty()) {
        QString a = args.takeFirst();
        if (a.isEmpty()) return false;
        if (a[0] == QLatin1Char('-') || a[0] == QLatin1Char('/')) {
            a = a.mid(1).trimmed();
            bool afterWord = false;
            while (!a.isEmpty()) {
                QString w;
                for (const char *x : words) if (w.isEmpty() && a.length() > 1 && a.startsWith(QLatin1String(x), Qt::CaseInsensitive)) w = QLatin1String(x);
                if (!w.isEmpty()) {
                    if (afterWord) return false;         // two long options written together are not judged
                    afterWord = true;
                    a = a.mid(w.length());
                    if (w == QLatin1String("NOLOGO")) { s.on['L'] = true; s.logo = false; }
                    if (w.startsWith(QLatin1String("DUMP"))) { s.dump = true; s.logo = false; if (w.length() > 9) s.dumpdot = true; }
                    if (w == QLatin1String("DEBUG")) s.debug = true;
                    if (w == QLatin1String("VERSION")) s.version = true;
                    continue;
                }
                afterWord = false;
                if (a[0].unicode() >= 128) return false;
                QChar c = a[0].toUpper();
                a = a.mid(1);
                if (c == QLatin1Char('F') || c == QLatin1Char('X')) {
                    QString v = a; a.clear();
                    if (v.isEmpty()) { if (args.isEmpty()) { s.refused = true; return true; } v = args.takeFirst(); }
                    if (c == QLatin1Char('F')) { s.makefile = v; s.makefileSet = true; } else s.errfile = v;
                } else if (c == QLatin1Char('J')) {
                    QString v;
                    if (a.isEmpty()) { if (args.isEmpty()) { s.refused = true; return true; } v = args.takeFirst(); }
                    else { int n = 0; while (n < a.length() && a[n].unicode() >= '0' && a[n].unicode() <= '9') ++n; v = a.left(n); a = a.mid(n); }
                    bool ok; qlonglong n = v.toLongLong(&ok);
                    if (!ok || n < 1 || n > 0x7fffffff) { s.refused = true; return true; }
                    s.jobs = n; s.jobsSet = true;
                } else if (letters.contains(c)) {
                    s.on[c == QLatin1Char('?') ? 'H' : c.toLatin1()] = true;
                    if (c == QLatin1Char('L')) s.logo = false;
                } else { s.refused = true; return true; }
            }
        } else if (a.contains(QLatin1Char('='))) {
            int k = a.indexOf(QLatin1Char('='));
            QString n = a.left(k).trimmed(), v = a.mid(k + 1);
            while (!v.isEmpty() && v[0].isSpace()) v.remove(0, 1);
            s.defs.append(qMakePair(n, v));
        } else { a = a.trimmed(); if (!s.targets.contains(a)) s.targets.append(a); }
    }
    return true;
}
static std::string compare(Settings &s, const Options &o, int jobs, bool jobsSet, bool all)
{
    bool K = s.on['K'] && !s.on['I'];
#define CK(letter, cond) if ((cond) != s.on[letter]) return std::string("option /") + letter + ((cond) ? " is set" : " is not set");
    CK('A', o.buildAllTargets) CK('B', o.buildIfTimeStampsAreEqual) CK('C', o.suppressOutputMessages) CK('D', o.displayBuildInfo)
    CK('E', o.overrideEnvVarMacros) CK('G', o.displayIncludeFileNames) CK('H', o.showUsageAndExit) CK('I', !o.stopOnErrors)
    CK('N', o.dryRun) CK('P', o.displayMakeInformation) CK('Q', o.checkTimeStampsButDoNotBuild)
    CK('R', o.ignorePredefinedRulesAndMacros) CK('S', o.suppressExecutedCommandsDisplay) CK('T', o.changeTimeStampsButDoNotBuild)
    CK('U', o.dumpInlineFiles) CK('W', o.printWorkingDir) CK('Y', !o.batchModeEnabled)
    if (o.buildUnrelatedTargetsOnError != K) return "option /K is wrong";
    if (jobsSet != s.jobsSet || (jobsSet && jobs != s.jobs)) return "the number of jobs is " + std::to_string(jobs) + " instead of " + std::to_string(s.jobs);
    if (all && o.showLogo != s.logo) return "/L is wrong";
    if (!all && s.on['L'] && o.showLogo) return "/L is not carried";
    if (o.debugMode != (all && s.debug)) return "/DEBUG is wrong";
    if (o.showVersionAndExit != (all && s.version)) return "/VERSION is wrong";
    if (o.dumpDependencyGraph != (all && s.dump) || o.dumpDependencyGraphDot != (all && s.dumpdot)) return "/DUMPGRAPH is wrong";
    return "";
}
static std::string check(const Fields &f)
{
    QStringList args; for (auto &a : f) args << Q(a);
    for (auto &a : args) {
        if (a.isEmpty() || a[0] == QLatin1Char('@')) return "malformed case";
        if (a[0] != QLatin1Char('-') && a[0] != QLatin1Char('/') && a.contains(QLatin1Char('='))) {
            MacroTable mt; if (!mt.isMacroNameValid(a.left(a.indexOf(QLatin1Char('='))).trimmed())) return "malformed case";
        }
    }
    Settings s;
    if (!reference(args, s)) return "malformed case";
    g_options.maxNumberOfJobs = 77; g_options.isMaxNumberOfJobsSet = false;
    Options o; QString makefile; QStringList targets; MacroTable mt;
    bool ok;
    try { ok = o.readCommandLineArguments(args, makefile, targets, mt); } catch (Exception &e) { return "malformed case"; }
    if (ok != !s.refused) return ok ? "accepted, should be refused" : "refused, should be accepted";
    if (!ok) return "";
    std::string m = compare(s, o, g_options.maxNumberOfJobs, g_options.isMaxNumberOfJobsSet, true);
    if (!m.empty()) return m;
    if (makefile != (s.makefileSet && !s.makefile.isNull() ? s.makefile : QString(QLatin1String("Makefile")))) return "makefile " + show(makefile);
    if (o.stderrFile != s.errfile) return "error file " + show(o.stderrFile);
    if (targets != s.targets) return "targets " + show(targets) + " instead of " + show(s.targets);
    for (auto &d : s.defs) {
        if (!mt.m_macros.contains(d.first)) return "macro " + show(d.first) + " is not defined";
        if (!mt.m_macros.value(d.first).isReadOnly) return "macro " + show(d.first) + " can be overwritten";
    }
    for (int i = 0; i < s.defs.size(); ++i) {
        bool first = true, self = s.defs[i].second.contains(QLatin1Char('$'));
        for (int j = 0; j < s.defs.size(); ++j) if (j != i && s.defs[j].first.toUpper() == s.defs[i].first.toUpper()) first = false;
        if (first && !self && mt.m_macros.value(s.defs[i].first).value != s.defs[i].second) return "macro " + show(s.defs[i].first) + " has the value " + show(mt.m_macros.value(s.defs[i].first).value);
    }
    // read back
    QString flags = mt.m_macros.value(QLatin1String("MAKEFLAGS")).value;
    g_options.maxNumberOfJobs = 77; g_options.isMaxNumberOfJobsSet = false;
    Options o2; QString makefile2; QStringList targets2; MacroTable mt2;
    if (!o2.readCommandLineArguments(QStringList(QLatin1Char('/') + flags), makefile2, targets2, mt2)) return "MAKEFLAGS " + show(flags) + " are refused";
    m = compare(s, o2, g_options.maxNumberOfJobs, g_options.isMaxNumberOfJobsSet, false);
    if (!m.empty()) return "read back from MAKEFLAGS " + show(flags) + ": " + m;
    if (!targets2.isEmpty() || makefile2 != QLatin1String("Makefile") || !o2.stderrFile.isEmpty()) return "MAKEFLAGS " + show(flags) + " carry more than options";
    return "";
}
static void gen(Gen &g)
{
    const std::string all = "ABCDEFGHIJKLNPQRSTUWXY?";
    for (char c : all) for (int lo = 0; lo < 2; ++lo) {
        std::string x = "/" + std::string(1, lo ? char(tolower(c)) : c);
        g.put({x}); g.put({x, "4"}); g.put({x, "foo"}); g.put({x + "4"}); g.put({x + "4K"}); g.put({"/A", x, "all", "m=1", "/K"});
    }
    // the settings do not depend on the order or on the way of writing
    for (char a : all) for (char b : all) for (char c : all) { g.put({"/" + std::string(1, a) + std::string(1, b) + std::string(1, c), "3"}); if (!g.more()) return; }
    for (const char *w : {"NOLOGO", "DUMPGRAPHDOT", "DUMPGRAPH", "DEBUG", "ERRORREPORT", "VERSION", "ERRORREPORT:NONE"}) {
        std::string l = w; for (auto &ch : l) ch = char(tolower(ch));
        for (auto &v : {std::string(w), l}) { g.put({"/" + v}); g.put({"-" + v, "/K"}); g.put({"/S" + v}); g.put({"/" + v + "S"}); g.put({"/" + v.substr(0, v.size() - 1)}); }
    }
    for (auto &w : {"DEBUG", "debug", "DeBuG", "KDEBUGS"}) {    // letters that read as a long option when written together
        Fields f; for (const char *p = w; *p; ++p) f.push_back("/" + std::string(1, *p));
        g.put(f); Fields h = f; h.insert(h.begin(), "/S"); g.put(h); h.push_back("/J7"); g.put(h);
    }
    std::vector<std::string> nums = {"4", "0", "-4", "+4", " 4", "4 ", "007", "08", "4294967296", "4294967300", "2147483648", "2147483647", "3000000000", "x", "4x", "", " ", "1", "1e1", "0x10", "12K"};
    for (auto &n : nums) { g.put({"/J", n}); g.put({"/J" + n}); g.put({"/SJ" + n + "K"}); g.put({"/J2", "/J", n}); g.put({"/J", "2", "/j" + n}); g.put({"/J" + n, "/J2"}); }
    std::vector<std::string> opt = {"A", "B", "C", "D", "E", "G", "H", "I", "J4", "J8", "K", "L", "N", "P", "Q", "R", "S", "T", "U", "W", "Y", "?", "D", "E", "B", "U", "G", "d", "e", "b", "u", "g", "j2", "J16", "j", "J", "f", "F", "x", "X", "NOLOGO", "nologo", "debug", "DUMPGRAPH", "VERSION", "ERRORREPORT", "i", "k", "M", "Z", "1", " ", "=", "fmk.mk", "xerr", "J0", "\xc3\xa4"};
    std::vector<std::string> other = {"all", "clean", "4", "8", "m=1", "M=2", "foo=bar baz", "FOO=", "a b", " t ", "x= y", "mk.mak", "+4", " 5", "all", "Path=x"};
    for (int n = 0; n < (g.thorough ? 2000000 : 150000) && g.more(); ++n) {
        Fields f;
        for (unsigned k = g.r(4) + 1; k--;) {
            if (g.chance(70)) f.push_back(g.pick(std::vector<std::string>{"/", "-"}) + g.str(opt, g.chance(50) ? 8 : 3)); else f.push_back(g.pick(other));
        }
        g.put(f);
    }
}
static Reg reg("C14", check, gen);
