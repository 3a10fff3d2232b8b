#include "harness.h"
#include "preprocessor.h"
#include "macrotable.h"
#include "exception.h"
using namespace NMakeFile;
static std::string check(const Fields &f)
{
    if (f.size() < 1) return "malformed case";
    QString s = Q(f[0]);
    // reference
    bool assign = false; QString name, value;
    if (!s.isEmpty()) {
        QChar c = s[0];
        ushort u = c.unicode();
        if (u >= 128) return "malformed case: only ASCII first characters are judged";
        bool start = u == '_' || u == '$' || (u >= '0' && u <= '9') || (u >= 'a' && u <= 'z') || (u >= 'A' && u <= 'Z');
        int depth = 0;
        for (int i = 1; start && i < s.length(); ++i) {
            c = s[i];
            if (c == QLatin1Char('(')) ++depth;
            else if (c == QLatin1Char(')')) --depth;
            else if (depth == 0 && c == QLatin1Char(':')) break;
            else if (depth == 0 && c == QLatin1Char('=')) {
                assign = true; name = s.left(i).trimmed(); 
                QString v = s.mid(i + 1).trimmed(), w; bool comment = false;
                for (int k = 0; k < v.length(); ++k) {
                    if (v[k] == QLatin1Char('^') && k + 1 < v.length() && v[k + 1] == QLatin1Char('#')) { w += QLatin1Char('#'); ++k; }
                    else if (v[k] == QLatin1Char('#')) { comment = true; break; }
                    else w += v[k];
                }
                value = comment ? w.trimmed() : w;
                break;
            }
        }
    }
    Preprocessor pp; MacroTable mt, ref; pp.setMacroTable(&mt);
    bool threw = false, refThrew = false, got = false;
    mt.setMacroValue("X", "x"); ref.setMacroValue("X", "x");
    try { got = pp.parseMacro(s); } catch (Exception &) { threw = true; }
    if (assign) try { ref.setMacroValue(name, value); } catch (Exception &) { refThrew = true; }
    if (threw != refThrew) return threw ? "unexpected error" : "error expected";
    if (!threw && got != assign) return assign ? "assignment " + show(name) + "=" + show(value) + " not recognised" : "taken as an assignment";
    if (mt.m_macros.count() != ref.m_macros.count()) return "wrong macros defined";
    for (auto it = ref.m_macros.begin(); it != ref.m_macros.end(); ++it) {
        if (!mt.m_macros.contains(it.key())) return "macro " + show(it.key()) + " missing";
        if (mt.m_macros.value(it.key()).value != it->value) return "macro " + show(it.key()) + " is " + show(mt.m_macros.value(it.key()).value) + " instead of " + show(it->value);
    }
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> a = {"a", "=", ":", "(", ")", " ", "$"};
    allStrings(a, g.thorough ? 7 : 6, [&](const std::string &s) { g.put({s}); });
    std::vector<std::string> b = {"a", "=", ":", "(", ")", " ", "$", "$(X)", "_", "9", "Z", "z", "A", "#", "^#", "\t", ".", "-", "{", "\"", "foo", "/", "\\", "!", "\n", "\xc3\xa4", "[", "^", "@"};
    for (int n = 0; n < (g.thorough ? 1500000 : 100000) && g.more(); ++n) g.put({g.str(b, 12)});
}
static Reg reg("C20", check, gen);
