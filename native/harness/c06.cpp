#include "world.h"
#include <set>
using namespace NMakeFile;
// files: m0/main includes m1/f1 includes m2/f2 (up to the given depth); the innermost includes x.mk, which may exist in
// c (the current directory), 0, 1, 2 (the directories of the including makefiles), i, j (those of the INCLUDE macro)
static std::string check(const Fields &f)
{
    if (f.size() < 6) return "malformed case";
    unsigned depth = atoi(f[0].c_str()) % 3; unsigned form = atoi(f[1].c_str()) % 5;
    const std::string &places = f[2], &act = f[4], &mac = f[5]; bool sub = f[3] == "s";
    if (places.find_first_not_of("c012ij") != std::string::npos) return "malformed case";
    if (act != "" && act != "self" && act != "main" && act != "last" && act != "twice" && act.substr(0, 2) != "at") return "malformed case";
    if (act.size() > 2 && act.substr(0, 2) == "at" && (act.size() != 3 || !strchr("c012ij", act[2]))) return "malformed case";
    if (act == "at") return "malformed case";
    static const std::set<std::string> macs = {"", "i", "j", "ij", "ji", "i;j", ";j;;i;", "\t"};
    if (!macs.count(mac)) return "malformed case";
    static QString base; static int made = 0;
    if (base.isEmpty()) { base = scratchDir(); }
    QString b = base + "/" + QString::number(made++ % 4);
    QDir(b).removeRecursively();
    for (const char *d : {"c", "m0", "m1", "m2", "i", "j", "c/s", "m0/s", "m1/s", "m2/s", "i/s", "j/s"}) QDir().mkpath(b + "/" + d);
    QString old = QDir::currentPath(); QDir::setCurrent(b + "/c");
    QString name = sub ? "s/x.mk" : "x.mk";
    auto dirOf = [&](char c) { return b + (c == 'c' ? QString("/c") : c == 'i' ? "/i" : c == 'j' ? "/j" : QString("/m") + c); };
    auto abs = [&](char c) { return dirOf(c) + "/" + name; };
    QString chain[3] = {b + "/m0/main", b + "/m1/f1", b + "/m2/f2"};
    QString inc = form == 0 ? name : form == 1 ? "\"" + name + "\"" : form == 2 ? "<" + name + ">" : form == 3 ? "<\"" + name + "\">" : name;
    QString dir = (form == 4 ? "include " : "!INCLUDE ") + inc + "\n";
    for (unsigned i = 0; i <= depth; ++i) {
        QString t = QString("a%1\n").arg(i);
        t += i == depth ? dir + (act == "twice" ? "between\n" + dir : QString()) : "!include <" + chain[i + 1] + ">\n";
        t += QString("z%1\n").arg(i);
        writeFile(chain[i], t.toUtf8());
    }
    for (char c : places) {
        QString t = QString("x-%1\n").arg(c);
        QString a = act == "self" ? abs(c) : act == "main" ? chain[0] : act == "last" ? chain[depth] : act.substr(0, 2) == "at" ? abs(act[2]) : QString();
        if (!a.isEmpty() && !(act.substr(0, 2) == "at" && c == act[2])) t += "!INCLUDE " + a + "\n";
        t += QString("y-%1\n").arg(c);
        writeFile(abs(c), t.toUtf8());
    }
    QString incMacro; 
    for (char c : mac) incMacro += c == 'i' || c == 'j' ? dirOf(c) + (mac.size() == 2 ? ";" : "") : QString(QChar(c));
    // reference
    std::string order = "c"; for (int i = int(depth); i >= 0; --i) order += char('0' + i);
    if (form == 2 || form == 3) for (char c : mac) if (c == 'i' || c == 'j') order += c;
    auto has = [&](char c) { return places.find(c) != std::string::npos; };
    char at = 0; for (char c : order) if (has(c)) { at = c; break; }
    QStringList want; bool werr = false;
    for (unsigned i = 0; i <= depth; ++i) want << QString("a%1").arg(i);
    if (!at) werr = true;
    for (int rep = 0; rep < (act == "twice" ? 2 : 1) && !werr; ++rep) {
        if (rep) want << "between";
        want << QString("x-%1").arg(at);
        if (act == "self" || act == "main" || act == "last") werr = true;
        else if (act.size() == 3 && act[2] != at) {
            if (!has(act[2])) werr = true; else want << QString("x-%1").arg(act[2]) << QString("y-%1").arg(act[2]);
        }
        if (!werr) want << QString("y-%1").arg(at);
    }
    if (!werr) for (int i = int(depth); i >= 0; --i) want << QString("z%1").arg(i);
    QStringList got; bool err = false; QString msg;
    MacroTable mt; Preprocessor pp; pp.setMacroTable(&mt);
    if (!incMacro.isEmpty()) mt.setMacroValue("INCLUDE", incMacro);
    try {
        pp.openFile(chain[0]);
        for (int n = 0; n < 300; ++n) { QString l = pp.readLine(); if (l.isNull()) break; got << l; }
    } catch (Exception &e) { err = true; msg = e.message(); }
    for (auto &t : pp.m_fileStack) delete t.reader;
    QDir::setCurrent(old);
    if (got != want) return "lines " + show(got) + " instead of " + show(want) + (err ? " error " + show(msg) : std::string());
    if (err != werr) return err ? "unexpected error " + show(msg) : "error expected";
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> acts = {"", "", "", "self", "main", "last", "twice", "ati", "atc", "at0", "at1"}, macs = {"", "i", "j", "ij", "ji", "i;j", ";j;;i;", "\t"};
    for (int n = 0; n < (g.thorough ? 200000 : 20000) && g.more(); ++n) {
        std::string p; for (char c : std::string("c012ij")) if (g.chance(c == 'c' ? 15 : 35)) p += c;
        g.put({std::to_string(g.r(3)), std::to_string(g.r(5)), p, g.chance(20) ? "s" : "", g.pick(acts), g.pick(macs)});
    }
}
static Reg reg("C06", check, gen);
