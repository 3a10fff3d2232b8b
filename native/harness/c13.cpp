#include "harness.h"
#include "makefile.h"
using namespace NMakeFile;
static std::string check(const Fields &f)
{
    if (f.size() < 4) return "malformed case";
    Command c;
    c.m_commandLine = Q(f[0]);
    c.m_silent = f[1] == "1"; c.m_singleExecution = f[2] == "1"; c.m_maxExitCode = f[3].empty() ? 0 : strtoul(f[3].c_str(), 0, 10);
    // reference
    QString s = Q(f[0]); bool silent = c.m_silent, single = c.m_singleExecution; unsigned maxe = c.m_maxExitCode;
    int i = 0;
    while (i < s.length()) {
        if (s[i] == QLatin1Char('@')) { silent = true; ++i; }
        else if (s[i] == QLatin1Char('!')) { single = true; ++i; }
        else if (s[i] == QLatin1Char('-')) {
            while (i < s.length() && s[i] == QLatin1Char('-')) ++i;
            int b = i;
            while (i < s.length() && s[i].isDigit()) ++i;
            if (i > b) { maxe = s.mid(b, i - b).toUInt(); } else maxe = 0xffffffffu;
        } else break;
    }
    c.evaluateModifiers();
    if (c.m_commandLine != s.mid(i)) return "command line " + show(c.m_commandLine) + " instead of " + show(s.mid(i));
    if (c.m_silent != silent) return "wrong silent flag";
    if (c.m_singleExecution != single) return "wrong per-dependent flag";
    if (c.m_maxExitCode != maxe) return "tolerated exit code " + std::to_string(c.m_maxExitCode) + " instead of " + std::to_string(maxe);
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> a = {"-", "@", "!", "7", "1", "d", " "};
    allStrings(a, 6, [&](const std::string &s) { g.put({s, "0", "0", "0"}); });
    std::vector<std::string> b = {"-", "@", "!", "0", "9", "4294967295", "4294967296", "x", "\t", "--", "-2", "\xd9\xa3"};
    for (int n = 0; n < (g.thorough ? 400000 : 40000) && g.more(); ++n)
        g.put({g.str(b, 12), g.chance(50) ? "1" : "0", g.chance(50) ? "1" : "0", std::to_string(g.r(5))});
}
static Reg reg("C13", check, gen);
