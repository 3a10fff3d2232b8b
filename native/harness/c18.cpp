#include "harness.h"
#include "preprocessor.h"
using namespace NMakeFile;
static std::string check(const Fields &f)
{
    if (f.size() < 1) return "malformed case";
    QString s = Q(f[0]), want; bool comment = false;
    for (int i = 0; i < s.length(); ++i) {
        if (s[i] == QLatin1Char('^') && i + 1 < s.length() && s[i + 1] == QLatin1Char('#')) { want += QLatin1Char('#'); ++i; }
        else if (s[i] == QLatin1Char('#')) { comment = true; break; }
        else want += s[i];
    }
    if (comment) want = want.trimmed();
    QString got = s;
    Preprocessor::removeInlineComments(got);
    if (got != want) return "result " + show(got) + " instead of " + show(want);
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> a = {"#", "^", "x", " ", "\t"};
    allStrings(a, g.thorough ? 9 : 7, [&](const std::string &s) { g.put({s}); });
    std::vector<std::string> b = {"#", "^#", "^^#", "##", "^", "x", " ", "abc", "\t", "$", "\xc2\xa0", "\n", "=", "\"", "^##"};
    for (int n = 0; n < (g.thorough ? 2000000 : 100000) && g.more(); ++n) g.put({g.str(b, 14)});
}
static Reg reg("C18", check, gen);
