#include "harness.h"
#include "makefile.h"
#include "macrotable.h"
#include "fastfileinfo.h"
#include "exception.h"
using namespace NMakeFile;
// 0: command text, 1: target, 2: time stamp of the target ("" = missing), 3: "!" or "" or "f" (text of an inline file), then dependent, time stamp...
static const QChar BOM = QChar(0xfeff);
struct Err {}; struct Skip {};
struct Dep { QString name; long t; };
static QStringList value(const QString &n, const QString &tgt, long tt, const QVector<Dep> &deps)
{
    QStringList l;
    if (n == QLatin1String("@")) l << tgt;
    else if (n == QLatin1String("*")) { int k = tgt.lastIndexOf(QLatin1Char('.')); l << (k < 0 ? tgt : tgt.left(k)); }
    else if (n == QLatin1String("**")) for (auto &d : deps) l << d.name;
    else for (auto &d : deps) if (d.t >= tt) l << d.name;
    return l;
}
static QString joined(QStringList l)
{
    for (QString &v : l) if (v.contains(QLatin1Char(' ')) || v.contains(QLatin1Char('\t'))) v = QLatin1Char('"') + v + QLatin1Char('"');
    return l.join(QLatin1Char(' '));
}
static QString ref(const QString &s, const QString &tgt, long tt, const QVector<Dep> &deps)
{
    QString o; int i = 0, n = s.length();
    auto c = [&](int k) { return k < n ? s[k].unicode() : 0; };
    while (i < n) {
        if (s[i] != BOM || o.endsWith(QLatin1Char('^'))) { o += s[i++]; continue; }
        int k = i + 1; bool par = c(k) == '('; if (par) ++k;
        QString name;
        if (c(k) == '@' || c(k) == '?') name = s.mid(k, 1);
        else if (c(k) == '*') name = s.mid(k, c(k + 1) == '*' ? 2 : 1);
        else throw Skip();
        k += name.length();
        QStringList v = value(name, tgt, tt, deps);
        if (!par) { o += joined(v); i = k; continue; }
        if (c(k) == 'D' || c(k) == 'B' || c(k) == 'F' || c(k) == 'R') {
            for (QString &x : v) switch (c(k)) {
                case 'D': { int p = x.lastIndexOf(QLatin1Char('\\')); x = p < 0 ? QLatin1String(".") : x.left(p); break; }
                case 'B': x = QFileInfo(x).baseName(); break;
                case 'F': x = QFileInfo(x).fileName(); break;
                case 'R': { int p = x.lastIndexOf(QLatin1Char('.')); if (p >= 0) x = x.left(p); break; }
            }
            ++k;
        }
        if (c(k) == ':') {
            int e = k + 1, eq = -1; bool q = false;
            for (; e < n; ++e) { if (s[e] == QLatin1Char(')') && !q) break; q = s[e] == QLatin1Char('^'); if (s[e] == QLatin1Char('=')) eq = e; }
            if (e == n || eq < 0) throw Err();
            QString before = s.mid(k + 1, eq - k - 1), after = s.mid(eq + 1, e - eq - 1).remove(QLatin1Char('^'));
            for (QString &x : v) {
                QString w; int p = 0;
                if (before.isEmpty()) { for (QChar y : x) { w += after; w += y; } w += after; }
                else while (p < x.length()) { if (x.midRef(p).startsWith(before)) { w += after; p += before.length(); } else w += x[p++]; }
                x = w;
            }
            k = e;
        }
        if (c(k) != ')') throw Skip();
        o += joined(v); i = k + 1;
    }
    return o;
}
static std::string check(const Fields &f)
{
    if (f.size() < 4) return "malformed case";
    QString tgt = Q(f[1]);
    if (tgt.isEmpty() || tgt.contains(BOM)) return "malformed case";
    static QStringList used; for (auto &u : used) FastFileInfo::clearCacheForFile(u);
    used.clear(); g_win.files.clear(); 
    long tt = f[2].empty() ? 0 : 1 + atol(f[2].c_str());
    auto add = [&](const QString &n, const std::string &t) { used << n; if (t.empty()) return 0L; QString k = QFileInfo(n).absoluteFilePath(); k.replace(QLatin1Char('\\'), QLatin1Char('/')); if (!g_win.cwd.isEmpty() && k.startsWith(g_win.cwd)) k.remove(0, g_win.cwd.length()); k = k.toLower(); long v = 1 + atol(t.c_str()); g_win.files[k] = v; return v; };
    QVector<Dep> deps;
    QSet<QString> seen; seen << tgt.toLower();
    add(tgt, f[2]);
    DescriptionBlock b(0); b.setTargetName(tgt);
    for (size_t i = 4; i + 1 < f.size(); i += 2) {
        QString n = Q(f[i]); if (n.isEmpty() || n.contains(BOM) || seen.contains(n.toLower())) return "malformed case";
        seen << n.toLower(); deps.append({n, add(n, f[i + 1])}); b.m_dependents << n;
    }
    QString text = Q(f[0]); if (text.contains(BOM)) return "malformed case";
    MacroTable mt; 
    try { text = mt.expandMacros(text); } catch (Exception &) { return "malformed case"; }
    Command c; c.m_singleExecution = f[3].find('!') != std::string::npos;
    bool keep = f[3].find('k') != std::string::npos;
    if (f[3].find('f') != std::string::npos) { InlineFile *i = new InlineFile; i->m_keep = keep; i->m_content = text; i->m_filename = text; c.m_inlineFiles << i; }
    c.m_commandLine = text; c.m_maxExitCode = 7; c.m_silent = keep;
    { Command other; other.m_commandLine = QLatin1String("first"); b.m_commands << other << c; other.m_commandLine = QLatin1String("last"); b.m_commands << other; }
    QStringList want; bool werr = false, gerr = false;
    want << QLatin1String("first");
    try {
        if (c.m_singleExecution) for (auto &d : deps) want << ref(text, tgt, tt, {d});
        else want << ref(text, tgt, tt, deps);
    } catch (Err &) { werr = true; } catch (Skip &) { return "malformed case"; }
    want << QLatin1String("last");
    try { b.expandFileNameMacros(); } catch (Exception &) { gerr = true; }
    if (werr != gerr) return werr ? "error expected" : "unexpected error";
    if (werr) return "";
    QStringList got; 
    for (auto &x : b.m_commands) { if (x.m_singleExecution) return "still marked with !"; got << (x.m_inlineFiles.isEmpty() ? x.m_commandLine : x.m_inlineFiles[0]->m_content); if (x.m_commandLine != "first" && x.m_commandLine != "last" && (x.m_maxExitCode != 7 || x.m_silent != keep || x.m_inlineFiles.count() != c.m_inlineFiles.count())) return "command not copied as it was";
        if (!x.m_inlineFiles.isEmpty() && x.m_inlineFiles[0]->m_keep != keep) return "KEEP lost";
        if (!x.m_inlineFiles.isEmpty() && x.m_commandLine != x.m_inlineFiles[0]->m_content) return "inline file " + show(x.m_inlineFiles[0]->m_content) + " in " + show(x.m_commandLine);
        if (!x.m_inlineFiles.isEmpty() && x.m_inlineFiles[0]->m_filename != x.m_inlineFiles[0]->m_content) return "inline file name not expanded like its text"; }
    if (got != want) return "commands " + show(got) + " instead of " + show(want);
    if (b.m_dependents.count() != deps.count()) return "dependents changed";
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> a = {"$@", "$**", "$?", "x", "^", "$(@D)", "$(@)", " "};
    allStrings(a, g.thorough ? 5 : 3, [&](const std::string &s) { g.put({s, "d\\t.e", "5", ""}); g.put({s, "d\\t.e", "5", "", "a", "4", "b", "6"}); });
    std::vector<std::string> b = {"$@", "$*", "$**", "$?", "x", "^", " ", "$(@D)", "$(@B)", "$(@F)", "$(@R)", "$(@)", "$(*)", "$(**)", "$(?)", "$(**D)", "$(**F)", "$(**B)", "$(**R)", "$(?D)", "$(?F)", "$(?R)", "$(?B)", "$(*F)", "$(*D)",
        "$(@:a=b)", "$(**:a=b)", "$(?:a=xyz)", "$(**F:.c=.obj)", "$(@D:\\=/)", "$(**R:a=)", "$(@:a=^))", "$(?F:=x)", "$(@F:a=b=c)", "$$", "(", ")", "*", "@", "foo", "$(**:abc)", "D", "$(?R:b=)", "\"", "^^", "$(*B)", "$(*R)", "\t"};
    std::vector<std::string> names = {"a", "b.c", "dir\\a.c", "a b.c", "dir\\sub\\ab.cpp", "x", "noext", "aa.bb.cc", "a\tb", "d.d\\f", "^", "q^", "A.C", "../up/a.c", "dir/f.c", "abc", "\"q\"", "\\x", "\\", "c:\\r.c", ".c", "x.", "/r"};
    std::vector<std::string> times = {"", "1", "5", "5", "9", "7"};
    for (int n = 0; n < (g.thorough ? 1500000 : 120000) && g.more(); ++n) {
        Fields f = {g.str(b, 8), g.pick(names), g.pick(times), std::string(g.chance(25) ? "!" : "") + (g.chance(25) ? "f" : "") + (g.chance(30) ? "k" : "")};
        for (int k = g.r(5); k--;) { f.push_back(g.pick(names)); f.push_back(g.pick(times)); }
        g.put(f);
    }
}
static Reg reg("C15", check, gen);
