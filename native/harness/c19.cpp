#include "harness.h"
#include "helperfunctions.h"
#include "options.h"
// arguments: blanks outside quotes separate; quotes group and vanish; a doubled quote is one quote character
static QStringList ref(const QString &s)
{
    QStringList out; QString cur; bool in = false;
    int n = s.length();
    auto flush = [&] { QString t = cur.trimmed(); if (!t.isEmpty()) { out << t; cur.clear(); } else cur = t; };
    int i = 0;
    while (i < n) {
        QChar c = s[i];
        if (c == QLatin1Char('"')) {
            // a run of k quotes: the 2nd, 4th, ... of the run stand for a quote character each, every one toggles the grouping
            int k = 0;
            while (i + k < n && s[i + k] == QLatin1Char('"')) ++k;
            for (int j = 1; j < k; j += 2) cur += QLatin1Char('"');
            if (k % 2) in = !in;
            i += k;
        } else { if (c.isSpace() && !in) flush(); else cur += c; ++i; }
    }
    flush();
    return out;
}
// FILES <content of file 0> <1> <2> (\x01: the file does not exist) <argument>...   @0 @1 @2 @"0" stand for @<name of the file>
static std::string files(const Fields &f)
{
    QString dir = scratchDir() + QLatin1String("/cf"); QDir(dir).removeRecursively(); QDir().mkpath(dir);
    QStringList args, rest, held; bool ok = true;
    for (int i = 0; i < 3; ++i) if (f[1 + i] != "\x01") { for (unsigned char c : f[1 + i]) if (c > 126 || c == 13) return "malformed case"; QFile o(dir + QLatin1Char('/') + QString::number(i)); o.open(QFile::WriteOnly); o.write(f[1 + i].data(), f[1 + i].size()); }
    for (size_t i = 4; i < f.size(); ++i) {
        const std::string &a = f[i]; if (a.empty()) return "malformed case";
        if (a[0] != '@') { args << Q(a); rest << Q(a); continue; }
        bool q = a.size() == 4 && a[1] == '"' && a[3] == '"'; if (!q && a.size() != 2) return "malformed case";
        int n = a[q ? 2 : 1] - '0'; if (n < 0 || n > 2) return "malformed case";
        QString name = dir + QLatin1Char('/') + QString::number(n), dq = q ? QString(QLatin1Char('"')) : QString();
        args << QLatin1Char('@') + dq + name + dq;
        const std::string &t = f[1 + n]; if (t == "\x01") { ok = false; continue; }
        for (size_t b = 0; b < t.size();) { size_t e = t.find('\n', b); e = e == std::string::npos ? t.size() : e + 1; for (const QString &w : ref(Q(t.substr(b, e - b)))) if (!w.startsWith(QLatin1Char('@'))) held << w; b = e; }
    }
    NMakeFile::Options o; bool got = o.expandCommandFiles(args);
    if (got != ok) return ok ? "the command files are not accepted" : "a missing command file is accepted";
    if (ok && args != rest + held) return "arguments " + show(args) + " instead of " + show(rest + held);
    return "";
}
static std::string check(const Fields &f)
{
    if (f.size() >= 4 && f[0] == "FILES") return files(f);
    if (f.size() < 1) return "malformed case";
    QStringList got = splitCommandLine(Q(f[0])), want = ref(Q(f[0]));
    if (got != want) return "arguments " + show(got) + " instead of " + show(want);
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> a = {"\"", " ", "a", "b", "\t"};
    allStrings(a, g.thorough ? 9 : 7, [&](const std::string &s) { g.put({s}); });
    std::vector<std::string> w = {"a", "b c", "@x", "@", "\"@y z\"", "\n", "\n", " ", "/J 4", "A=\"b c\"", "\"", "@0"};
    for (int n = 0; n < (g.thorough ? 40000 : 3000) && g.more(); ++n) {
        Fields f = {"FILES"}; for (int i = 0; i < 3; ++i) f.push_back(g.chance(8) ? "\x01" : g.str(w, 8));
        for (int i = 1 + g.r(5); i--;) f.push_back(g.pick(std::vector<std::string>{"@0", "@1", "@2", "@\"0\"", "@\"1\"", "t", "/J", "x=@0", "\"@0\""}));
        g.put(f);
    }
    std::vector<std::string> b = {"\"", "\"\"", " ", "a", "foo", "\t", "\\", "\n", "\xc2\xa0", "@", "=", "/J", "\"\"\"", "\xe2\x82\xac"};
    for (int n = 0; n < (g.thorough ? 2000000 : 100000) && g.more(); ++n) g.put({g.str(b, 16)});
}
static Reg reg("C19", check, gen);
