#include "world.h"
#include "makefilelinereader.h"
#include <QTextCodec>
using namespace NMakeFile;
struct RLine { QString content; int cont; };
static QString ltrim(const QString &s) { int i = 0; while (i < s.length() && s[i].isSpace()) ++i; return s.mid(i); }
// fields: the text ({n} stands for n times x), the line end of the file (n, rn), the number of lines before inline mode
static std::string check(const Fields &f)
{
    if (f.size() < 3 || (f[1] != "n" && f[1] != "rn")) return "malformed case";
    std::string tx;
    for (size_t i = 0; i < f[0].size(); ++i) {
        if (f[0][i] != '{') { tx += f[0][i]; continue; }
        size_t j = f[0].find('}', i); if (j == std::string::npos) return "malformed case";
        int n = atoi(f[0].c_str() + i + 1); if (n < 0 || n > 40000) return "malformed case";
        tx += std::string(n, 'x'); i = j;
    }
    QString text = Q(tx); int k = atoi(f[2].c_str());
    if (text.contains('\r') || text.startsWith(QString::fromLatin1("\xff\xfe")) || text.startsWith(QString::fromLatin1("\xef\xbb\xbf")) || text.contains(QChar(0xfeff)) || text.contains(QChar(0xfffd)) || text.contains(QChar(0))) return "malformed case";
    if (f[0].find('\0') != std::string::npos) return "malformed case";
    QStringList raw = text.split('\n'); if (raw.last().isEmpty()) raw.removeLast();
    QList<RLine> want;
    for (const QString &l : raw) {
        if (l.startsWith('#')) continue;
        if (l.endsWith("^\\")) want << RLine{l.left(l.length() - 2) + "\\", 0};
        else if (l.endsWith("\\\\")) want << RLine{l, 0};
        else if (l.endsWith("\\")) want << RLine{l.left(l.length() - 1), 1};
        else if (l.endsWith("^")) want << RLine{l.left(l.length() - 1), 2};
        else want << RLine{l, 0};
    }
    bool plain = true;   // no macro definitions and no directives
    for (const RLine &l : want) if (l.content.contains('=') || l.content.contains('!') || l.content.contains('$')) plain = false;
    QStringList logical;
    for (int i = 0; i < want.size(); ++i) {
        QString s = want[i].content; int c = want[i].cont;
        while (c) { s += c == 1 ? " " : "\n"; if (++i >= want.size()) break; s += ltrim(want[i].content); c = want[i].cont; }
        logical << s;
    }
    bool latin = true; for (QChar c : text) if (c.unicode() > 255) latin = false;
    static QString dir = scratchDir();
    QString eol = f[1] == "n" ? "\n" : "\r\n"; QString ft = text; ft.replace("\n", eol);
    for (int enc = latin ? 0 : 1; enc < 3; ++enc) {
        const char *en = enc == 0 ? "8 bit" : enc == 1 ? "UTF-8" : "UTF-16";
        QByteArray data = enc == 0 ? ft.toLatin1() : enc == 1 ? "\xef\xbb\xbf" + ft.toUtf8() : QByteArray("\xff\xfe", 2) + QByteArray((const char *) ft.utf16(), ft.length() * 2);
        QString fn = dir + "/m"; writeFile(fn, data);
        {
            MakefileLineReader r(fn); if (!r.open()) return "cannot open";
            for (int i = 0; i <= want.size(); ++i) {
                MakefileLine l = r.readLine(false);
                if (i == want.size()) { if (!l.content.isNull()) return std::string(en) + ": additional line " + show(l.content); break; }
                if (l.content.isNull()) return std::string(en) + ": line missing: " + show(want[i].content.right(40));
                if (l.content != want[i].content) return std::string(en) + ": line " + show(l.content.right(60)) + " instead of " + show(want[i].content.right(60));
                if (int(l.continuation) != want[i].cont) return std::string(en) + ": wrong continuation of line " + show(l.content.right(60));
            }
        }
        {
            MakefileLineReader r(fn); if (!r.open()) return "cannot open";
            int i = 0;
            for (int n = 0; n < k && i < raw.size(); ++n) { while (i < raw.size() && raw[i].startsWith('#')) ++i; r.readLine(false); ++i; }
            for (; i <= raw.size(); ++i) {
                MakefileLine l = r.readLine(true);
                if (i >= raw.size()) { if (!l.content.isNull()) return std::string(en) + ": additional inline line " + show(l.content); break; }
                if (l.content.isNull()) return std::string(en) + ": inline line missing: " + show(raw[i].right(40));
                QString c = l.content; if (c.endsWith('\n')) c.chop(1);
                if (c != raw[i]) return std::string(en) + ": inline line " + show(c.right(60)) + " instead of " + show(raw[i].right(60));
            }
        }
        if (plain) {
            MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt); QStringList got;
            try { pp.openFile(fn); for (int n = 0; n < logical.size() + 3; ++n) { QString l = pp.readLine(); if (l.isNull()) break; got << l; } }
            catch (Exception &e) { for (auto &t : pp.m_fileStack) delete t.reader; return std::string(en) + ": unexpected error " + show(e.message()); }
            for (auto &t : pp.m_fileStack) delete t.reader;
            QStringList w = logical;
            if (!w.isEmpty() && got.size() == w.size() && !want.isEmpty() && want.last().cont && (got.last() + " " == w.last() || got.last() + "\n" == w.last())) w.last() = got.last();
            if (got != w) { for (int i = 0; i < got.size() || i < w.size(); ++i) if (i >= got.size() || i >= w.size() || got[i] != w[i])
                return std::string(en) + ": logical line " + (i < got.size() ? show(got[i].right(60)) : "missing") + " instead of " + (i < w.size() ? show(w[i].right(60)) : "none"); }
        }
    }
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> a = {"\\", "^", "\n", "a", "#", " "};
    allStrings(a, g.thorough ? 6 : 5, [&](const std::string &s) { g.put({s, "n", "1"}); });
    std::vector<std::string> b = {"\\", "^", "\n", "\n", "\\\n", "^\n", "a", "#", " ", "\t", "^\\\n", "\\\\\n", "b c", "\xc3\xa4", "\xc4\x8d", "\xe0\xb4\x85", "\xe0\xa8\x8d", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "#x\n", "\n#", "\xc2\xa0", "$", "!", "=", "\xc3\xbf"};
    for (int n = 0; n < (g.thorough ? 200000 : 12000) && g.more(); ++n) g.put({g.str(b, 16), g.chance(50) ? "n" : "rn", std::to_string(g.r(4))});
    // around the sizes of the line buffer
    std::vector<std::string> c = {"\\", "^", "\n", "a", "#", "\\\n", "^\n"};
    for (int n = 0; n < (g.thorough ? 40000 : 2000) && g.more(); ++n) {
        std::string t = g.str(c, 3);
        for (unsigned i = g.r(2) + 1; i--;) t += "{" + std::to_string((g.chance(70) ? 6138 : 0) + g.r(12) + (g.chance(50) ? 1024 * g.r(3) - g.r(4) : 0) + 0) + "}" + g.str(c, 3);
        g.put({t, "n", std::to_string(g.r(3))});
    }
}
static Reg reg("C05", check, gen);
