#include "harness.h"
#include "helperfunctions.h"
#include "processenvironment.h"
using namespace NMakeFile;
namespace NMakeFile {
#include "envblock_cut.inc"
}
/* fields: PATH and SystemRoot of jom itself, then names and values of the environment in the order they are set */
static std::string check(const Fields &f)
{
    if (f.size() < 2 || f.size() % 2) return "malformed case";
    for (const std::string &s : f) if (s.find('\0') != std::string::npos) return "malformed case";
    g_win.env.clear();
    if (!f[0].empty()) g_win.env["PATH"] = Q(f[0]);
    if (!f[1].empty()) g_win.env["SYSTEMROOT"] = Q(f[1]);
    ProcessEnvironment env;
    QList<QPair<QString, QString> > want;
    auto add = [&](const QString &n, const QString &v) {
        for (auto &p : want) if (p.first.compare(n, Qt::CaseInsensitive) == 0) { p.second = v; return; }
        want << qMakePair(n, v);
    };
    auto has = [&](const char *n) { for (auto &p : want) if (p.first.compare(QLatin1String(n), Qt::CaseInsensitive) == 0) return true; return false; };
    for (size_t i = 2; i < f.size(); i += 2) { env.insert(Q(f[i]), Q(f[i + 1])); add(Q(f[i]), Q(f[i + 1])); }
    if (env.count() != want.count()) return "wrong number of variables in the environment";
    if (!env.isEmpty()) {
        if (!has("Path") && !f[0].empty()) add(QLatin1String("Path"), Q(f[0]));
        if (!has("SystemRoot") && !f[1].empty()) add(QLatin1String("SystemRoot"), Q(f[1]));
    }
    QByteArray b = createEnvBlock(env);
    g_win.env.clear();
    if (env.isEmpty()) return b.isEmpty() ? "" : "block for an empty environment";
    if (b.size() % 2 || b.size() < 4) return "block of " + std::to_string(b.size()) + " bytes";
    QVector<ushort> w(b.size() / 2); memcpy(w.data(), b.constData(), b.size());
    int n = w.size();
    if (w[n - 1] || w[n - 2]) return "block is not terminated";
    int pos = 0; QStringList got;
    while (pos < n && w[pos]) { QString s; while (pos < n && w[pos]) s += QChar(w[pos++]); ++pos; got << s; }
    if (pos != n - 2) return "block is terminated too early";
    QStringList exp; for (auto &p : want) if (!p.first.isEmpty() || !p.second.isEmpty()) exp << p.first + QLatin1Char('=') + p.second;
    QStringList g2 = got, e2 = exp; g2.sort(); e2.sort();
    if (g2 != e2) return "block " + show(g2) + " instead of " + show(e2);
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> names = {"A", "a", "PATH", "Path", "path", "SystemRoot", "SYSTEMROOT", "", "B", "TMP", "\xc3\xa4", "\xc3\x84", "AB", "aB", "X Y", "ProgramFiles(x86)", "LONG_NAME_OF_A_VARIABLE", "1", "_"};
    std::vector<std::string> vals = {"", "x", "C:\\bin;D:\\x", "a=b", "=C:", " ", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "long value long value long value", "\"q\"", "\t"};
    std::vector<std::string> os = {"", "C:\\Windows"};
    for (auto &p : os) for (auto &r : os) { g.put({p, r}); for (auto &n : names) for (auto &v : vals) g.put({p, r, n, v}); }
    for (auto &p : os) for (auto &r : os) for (auto &n : names) for (auto &m : names) g.put({p, r, n, "v", m, "w w"});
    for (int n = 0; n < (g.thorough ? 1000000 : 60000) && g.more(); ++n) {
        Fields f = {g.pick(os), g.pick(os)};
        for (unsigned k = g.r(g.chance(5) ? 200 : 8); k--;) { f.push_back(g.chance(80) ? g.pick(names) : g.str(names, 3)); f.push_back(g.chance(80) ? g.pick(vals) : g.str(vals, 5)); }
        g.put(f);
    }
}
static Reg reg("C23", check, gen);
