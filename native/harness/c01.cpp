#include "harness.h"
#include "macrotable.h"
#include "exception.h"
using namespace NMakeFile;
// fields: 0: dependents line ("1"/"0"); 1: text; then pairs name, value
struct Err {};
static const QChar BOM = QChar(0xfeff);
typedef QMap<QString, QString> T;
static QString exp_(const T &t, const QStringList &used, const QString &s, bool dep)
{
    QString out; int n = s.length(), i = 0;
    auto val = [&](const QString &name) { if (used.contains(name)) throw Err(); return exp_(t, used + QStringList(name), t.value(name), dep); };
    auto fnm = [](QChar c) { return c == QLatin1Char('<') || c == QLatin1Char('*') || c == QLatin1Char('@') || c == QLatin1Char('?'); };
    while (i < n) {
        if (s[i] != QLatin1Char('$') || i + 1 == n) { out += s[i++]; continue; }
        QChar c = s[i + 1];
        if (c == QLatin1Char('(')) {
            int e = i + 2; while (e < n && s[e] != QLatin1Char(')')) ++e;
            if (e == n) throw Err();
            int m = i + 2; while (m < e && s[m] != QLatin1Char(':')) ++m;
            QString name = s.mid(i + 2, m - i - 2);
            if (name.isEmpty()) throw Err();
            if (fnm(name[0])) { out += BOM; out += s.mid(i + 1, e - i); i = e + 1; continue; }
            QString v = val(name);
            if (m < e) {
                int k = m + 1, eq = -1; bool q = false; QString after; 
                for (; k < n; ++k) {
                    if (s[k] == QLatin1Char(')') && !q) break;
                    q = s[k] == QLatin1Char('^');
                    if (s[k] == QLatin1Char('=')) eq = k;
                }
                if (k == n || eq < 0) throw Err();
                QString before = s.mid(m + 1, eq - m - 1);
                for (int j = eq + 1; j < k; ++j) if (s[j] != QLatin1Char('^')) after += s[j];
                QString w; int p = 0;
                if (before.isEmpty()) { for (QChar x : v) { w += after; w += x; } w += after; }
                else while (p < v.length()) { if (v.midRef(p).startsWith(before)) { w += after; p += before.length(); } else w += v[p++]; }
                v = w; e = k;
            }
            out += v; i = e + 1;
        } else if (c == QLatin1Char('$')) {
            i += 2;
            if (dep) {
                if (s.midRef(i).startsWith(QLatin1String("(@"))) { out += BOM; out += QLatin1String("(@"); i += 2; continue; }
                if (s.midRef(i).startsWith(QLatin1Char('@'))) { out += BOM; out += QLatin1Char('@'); ++i; continue; }
            }
            out += c;
        } else if (c.isLetterOrNumber()) { out += val(QString(c)); i += 2; }
        else if (fnm(c)) { out += BOM; out += c; i += 2; }
        else throw Err();
    }
    return out;
}
static std::string check(const Fields &f)
{
    if (f.size() < 2) return "malformed case";
    T t; MacroTable mt;
    for (size_t i = 2; i + 1 < f.size(); i += 2) {
        if (f[i].empty()) return "malformed case";
        t[Q(f[i])] = Q(f[i + 1]); mt.m_macros[Q(f[i])].value = Q(f[i + 1]);
    }
    QString s = Q(f[1]), want, got; bool werr = false, gerr = false;
    try { want = exp_(t, QStringList(), s, f[0] == "1"); } catch (Err &) { werr = true; }
    try { got = mt.expandMacros(s, f[0] == "1"); } catch (Exception &) { gerr = true; }
    if (werr != gerr) return werr ? "no error reported, result " + show(got) : "unexpected error, expected " + show(want);
    if (got != want) return "expansion " + show(got) + " instead of " + show(want);
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> a = {"$", "(", ")", "A", ":", "=", "^"};
    allStrings(a, g.thorough ? 7 : 5, [&](const std::string &s) { g.put({"0", s, "A", "AxA"}); });
    std::vector<std::string> a2 = {"$", "(", "@", "A", ")", "*"};
    allStrings(a2, g.thorough ? 6 : 4, [&](const std::string &s) { g.put({"1", s, "A", "a$B", "B", "b"}); });
    std::vector<std::string> b = {"$", "$$", "(", ")", "$(A)", "$(B)", "$A", "$B", "$(C:", "a", "b", "=", "^", ":", "$@", "$(@D)", "$*", "$(<F)", "A", "B", "x", " ", "$?", "$(A:a=b)", "$(B:x=", "$(FOO)", "#", "\\", "$(A:=y)", "^)", "$(C)$(C)", "\xc3\xa4", "$\xc3\xa4", "\xef\xbb\xbf", ".", "_", "$_"};
    std::vector<std::string> v = {"", "a", "x", "ab", "$(B)", "$(C)", "$(A)", "$B", "$C", "$$", "aa", "$(FOO)", "b", "$(C:a=b)", "$(B:^=x)", " ", "$", "=", "$(D)", "$(E:a=$$)", "$@"};
    std::vector<std::string> sb = {"a", "b", "^", "=", "x", " ", "$", "", "\\", ":", "ab"}, sa = {"a", "c", "^", "^^", "=", "y", "^)", " ", "$", "", "^="};
    for (int n = 0; n < 12000 && g.more(); ++n)
        g.put({g.chance(20) ? "1" : "0", "$(A:" + g.str(sb, 3) + "=" + g.str(sa, 5) + ")" + (g.chance(30) ? "$(A)" : "z"), "A", g.str({"a", "b", "^", "x", "=", "$$", "ab", " ", "$B"}, 5), "B", "ab"});
    for (int n = 0; n < (g.thorough ? 2000000 : 150000) && g.more(); ++n) {
        Fields f = {g.chance(30) ? "1" : "0", g.str(b, 7)};
        for (const char *m : {"A", "B", "C", "D", "E", "FOO"}) if (g.chance(75)) { f.push_back(m); f.push_back(g.str(v, 3)); }
        g.put(f);
    }
}
static Reg reg("C01", check, gen);
