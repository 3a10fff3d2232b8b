#include "world.h"
#include <set>
using namespace NMakeFile;
// a case is a list of lines: kind, argument, style (how the directive is written)
namespace {
struct Ref {
    QMap<QString, QString> m; QList<QPair<bool, bool>> st; QStringList out; bool err = false;   // (some branch delivered, this branch delivered)
    bool live() const { for (auto &p : st) if (!p.second) return false; return true; }
    bool outerLive() const { for (int i = 0; i + 1 < st.size(); ++i) if (!st[i].second) return false; return true; }
    bool eval(const std::string &e)
    {
        bool neg = e[0] == '!'; std::string x = neg ? e.substr(1) : e; bool v;
        if (x == "0") v = false; else if (x == "1" || x == "2" || x == "-1") v = true;
        else if (x[0] == 'd') v = m.contains(QString::fromStdString(x.substr(1)));
        else if (x[0] == 'e') v = m.value(QString::fromStdString(x.substr(1, 1))) == QString::fromStdString(x.substr(2));
        else { err = true; return false; }
        return neg ? !v : v;
    }
    void line(const std::string &k, const std::string &a)
    {
        QString q = QString::fromStdString(a);
        bool isIf = k == "IF" || k == "IFDEF" || k == "IFNDEF", isElse = k.substr(0, 4) == "ELSE";
        if (isIf) {
            if (!live()) { st.append({true, false}); return; }
            bool c = k == "IF" ? eval(a) : m.contains(q) == (k == "IFDEF");
            if (!err) st.append({c, c});
        } else if (isElse) {
            if (st.isEmpty()) { err = true; return; }
            auto &t = st.last();
            if (!outerLive() || t.first) { t.second = false; return; }
            bool c = k == "ELSE" ? true : k == "ELSEIF" ? eval(a) : m.contains(q) == (k == "ELSEIFDEF");
            if (!err) { t.first = t.second = c; }
        } else if (k == "ENDIF") { if (st.isEmpty()) err = true; else st.removeLast(); }
        else if (!live()) return;
        else if (k == "T") out << q;
        else if (k == "SET") m[q.left(1)] = q.mid(1);
        else if (k == "UNDEF") m.remove(q);
        else if (k == "BAD") err = true;
        else if (k == "INC") { line("T", "i1"); line("IFDEF", "A"); line("T", "i2"); line("SET", "B7"); line("ELSE", ""); line("T", "i3"); line("ENDIF", ""); line("T", "i4"); }
    }
};
std::string exprText(const std::string &e)
{
    bool neg = e[0] == '!'; std::string x = neg ? e.substr(1) : e, r = x;
    if (x[0] == 'd') r = "defined(" + x.substr(1) + ")";
    else if (x[0] == 'e') r = "\"$(" + x.substr(1, 1) + ")\"==\"" + x.substr(2) + "\"";
    else if (x[0] == 'x') r = "1 1";
    return neg ? (x[0] == 'e' ? "!(" + r + ")" : "!" + r) : r;
}
}
static const char *inc = "i1\n!ifdef A\ni2\nB=7\n!else\ni3\n!endif\ni4\n";
static std::string check(const Fields &f)
{
    if (f.size() % 3 != 0) return "malformed case";
    QByteArray text; Ref ref; bool viaMacro = false;
    for (size_t i = 0; i + 2 < f.size(); i += 3) {
        const std::string &k = f[i], &a = f[i + 1]; unsigned style = f[i + 2].empty() ? 0 : atoi(f[i + 2].c_str());
        std::string l, n = k;
        if (k == "T") { if (a.size() < 2 || a[0] != 't' || a.find_first_not_of("0123456789", 1) != std::string::npos) return "malformed case"; l = a; }
        else if (k == "SET") { if (a.size() < 1 || a.size() > 2 || !strchr("ABC", a[0])) return "malformed case"; l = a.substr(0, 1) + "=" + a.substr(1); }
        else if (k == "RAW") l = a;
        else {
            static const std::set<std::string> kinds = {"IF", "IFDEF", "IFNDEF", "ELSE", "ELSEIF", "ELSEIFDEF", "ELSEIFNDEF", "ENDIF", "UNDEF", "BAD", "INC"};
            bool needs = k.find("IF") != std::string::npos && k != "ENDIF";
            if (!kinds.count(k) || ((needs || k == "UNDEF") && a.empty())) return "malformed case";
            if (k == "IF" || k == "ELSEIF") { static const std::set<std::string> ex = {"0", "1", "2", "-1", "!1", "!0", "dA", "!dA", "dB", "eA1", "eA2", "!eA1", "eB7", "eC", "x"}; if (!ex.count(a)) return "malformed case"; }
            else if (needs || k == "UNDEF") { if (a != "A" && a != "B" && a != "C") return "malformed case"; }
            if (k == "BAD") { l = a == "0" ? "!ERROR no" : a == "1" ? "!INCLUDE nofile.mk" : "!FOO x"; }
            else if (k == "INC") l = a == "0" ? "include inc.mk" : "!include <inc.mk>";
            else {
                if (n.size() > 4 && n.substr(0, 4) == "ELSE" && (style & 1)) n = "ELSE " + n.substr(4);
                if (style & 2) for (char &c : n) c = char(tolower(c));
                if ((style & 4) && n.find(' ') == std::string::npos && n.size() > 2 && tolower(n[0]) == 'i') { n = "$(KW)" + n.substr(2); }
                std::string arg = (k == "IF" || k == "ELSEIF") ? exprText(a) : a;
                l = std::string("!") + ((style & 8) ? " \t" : "") + n;
                if (!arg.empty()) l += ((style & 16) ? " \\\n\t" : (style & 32) ? "\t" : " ") + arg;
                if (style & 64) l += " # !ENDIF";
            }
        }
        text += QByteArray(l.data(), int(l.size())) + "\n";
        if (k != "RAW" && !ref.err) ref.line(k, a);
    }
    if (!ref.err && !ref.st.isEmpty()) ref.err = true;
    (void)viaMacro;
    static QString dir = scratchDir();
    writeFile(dir + "/inc.mk", inc); writeFile(dir + "/Makefile", text);
    Preprocessor pp; MacroTable mt; pp.setMacroTable(&mt); mt.setMacroValue("KW", "if");
    QStringList got; bool err = false; QString msg;
    try {
        pp.openFile(dir + "/Makefile");
        for (int n = 0; n < 10000; ++n) { QString l = pp.readLine(); if (l.isNull()) break; got << l; }
    } catch (Exception &e) { err = true; msg = e.message(); }
    for (auto &t : pp.m_fileStack) delete t.reader;
    if (got != ref.out) return "lines delivered " + show(got) + " instead of " + show(ref.out);
    if (err != ref.err) return err ? "unexpected error " + show(msg) : "error expected";
    for (const char *n : {"A", "B", "C"}) if (!err && mt.macroValue(n) != ref.m.value(n)) return std::string("macro ") + n + " is " + show(mt.macroValue(n));
    return "";
}
static void gen(Gen &g)
{
    // all short skeletons
    std::vector<Fields> tok = {{"IF", "0", "0"}, {"IF", "1", "0"}, {"ELSE", "", "0"}, {"ENDIF", "", "0"}, {"ELSEIF", "1", "0"}, {"ELSEIF", "0", "0"}};
    int maxn = g.thorough ? 7 : 5;
    std::function<void(Fields, int)> rec = [&](Fields f, int n) {
        Fields t = f; t.insert(t.end(), {"T", "t" + std::to_string(n), "0"});
        g.put(t); if (n == maxn || !g.more()) return;
        for (auto &k : tok) { Fields u = t; u.insert(u.end(), k.begin(), k.end()); rec(u, n + 1); }
    };
    rec({}, 0);
    std::vector<std::string> ex = {"0", "1", "2", "-1", "!1", "!0", "dA", "!dA", "dB", "eA1", "eA2", "!eA1", "eB7", "eC"};
    std::vector<std::string> ms = {"A", "B", "C"};
    for (int n = 0; n < (g.thorough ? 600000 : 40000) && g.more(); ++n) {
        Fields f; int depth = 0;
        bool wild = g.chance(10);
        for (int k = 3 + int(g.r(22)); k-- || (!wild && depth > 0);) {
            std::string st = std::to_string(g.chance(50) ? 0 : g.r(128));
            unsigned c = g.r(100);
            if (k < 0) { k = 0; c = 60; }
            if (c < 14) f.insert(f.end(), {"T", "t" + std::to_string(f.size()), "0"});
            else if (c < 24) f.insert(f.end(), {"SET", g.pick(ms) + g.pick(std::vector<std::string>{"1", "2", "7", ""}), "0"});
            else if (c < 28) f.insert(f.end(), {"UNDEF", g.pick(ms), st});
            else if (c < 38) { f.insert(f.end(), {"IF", g.pick(ex), st}); ++depth; }
            else if (c < 44) { f.insert(f.end(), {"IFDEF", g.pick(ms), st}); ++depth; }
            else if (c < 50) { f.insert(f.end(), {"IFNDEF", g.pick(ms), st}); ++depth; }
            else if (c < 53) f.insert(f.end(), {"INC", std::to_string(g.r(2)), "0"});
            else if (c < 54) f.insert(f.end(), {"BAD", std::to_string(g.r(3)), "0"});
            else if (c < 56) f.insert(f.end(), {"RAW", g.chance(50) ? "# !ENDIF" : "!CMDSWITCHES +S", "0"});
            else if (c < 74) { if (depth > 0 || wild) { f.insert(f.end(), {"ENDIF", "", st}); --depth; } }
            else if (depth > 0 || wild) {
                if (c < 82) f.insert(f.end(), {"ELSE", "", st});
                else if (c < 90) f.insert(f.end(), {"ELSEIF", g.pick(ex), st});
                else f.insert(f.end(), {c < 95 ? "ELSEIFDEF" : "ELSEIFNDEF", g.pick(ms), st});
            }
        }
        if (f.size()) g.put(f);
    }
}
static Reg reg("C03", check, gen);
