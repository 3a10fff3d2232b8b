#include "harness.h"
#include "sim.h"
#include "makefile.h"
#include "macrotable.h"
#include "options.h"
#include "fastfileinfo.h"
#include "dependencygraph.h"
#include "exception.h"
using namespace NMakeFile;
// "SIM": a whole build with time stamps, see sim.h; or 0: target, 1: its time stamp ("" = no file), 2: now, then groups of four: D (dependent) or R (extension of an unused inference rule, {dir}.ext), name,
// T (described target) C (has commands) E (is known to exist), "time of the file,known time"
static std::string check(const Fields &f)
{
    if (f.size() > 1 && f[0] == "SIM") { if (f[1].find('T') == std::string::npos) return "malformed case"; return sim::check(Fields(f.begin() + 1, f.end()), sim::TIMES); }
    if (f.size() < 3 || f[0].empty() || (f.size() - 3) % 4) return "malformed case";
    static QStringList used; for (auto &u : used) FastFileInfo::clearCacheForFile(u);
    used.clear(); g_win.files.clear(); g_win.now = sim::stamp(1 + atol(f[2].c_str()));
    auto add = [&](const QString &n, const std::string &t) { used << n; if (t.empty()) return; QString k = QFileInfo(n).absoluteFilePath(); k.replace(QLatin1Char('\\'), QLatin1Char('/')); if (!g_win.cwd.isEmpty() && k.startsWith(g_win.cwd)) k.remove(0, g_win.cwd.length()); g_win.files[k.toLower()] = sim::stamp(1 + atol(t.c_str())); };
    QString name = Q(f[0]); if (name.contains(QLatin1Char('"')) || name.contains(QLatin1Char('\\'))) return "malformed case";
    add(name, f[1]);
    Makefile mk(QLatin1String("x")); mk.setOptions(new Options); mk.setMacroTable(new MacroTable);
    DescriptionBlock *t = new DescriptionBlock(&mk); t->setTargetName(name);
    mk.append(t);
    struct D { bool known, cmds, exists; long file, stamp; };
    std::vector<QString> seen = {name.toLower()};
    QVector<D> deps; QList<DescriptionBlock *> all; all << t;
    std::string bad;
    for (size_t i = 3; i + 3 < f.size() && bad.empty(); i += 4) {
        QString n = Q(f[i + 1]); if (n.isEmpty()) { bad = "malformed case"; break; }
        std::string fl = f[i + 2]; auto has = [&](char c) { return fl.find(c) != std::string::npos; };
        size_t comma = f[i + 3].find(','); if (comma == std::string::npos) { bad = "malformed case"; break; }
        std::string ft = f[i + 3].substr(0, comma), st = f[i + 3].substr(comma + 1);
        D d; d.known = has('T'); d.cmds = has('C'); d.exists = has('E'); d.file = ft.empty() ? 0 : 1 + atol(ft.c_str()); d.stamp = st.empty() ? 0 : 1 + atol(st.c_str());
        QString dn = n;
        if (f[i] == "R") {
            InferenceRule *r = new InferenceRule; int b = n.indexOf(QLatin1Char('}'));
            r->m_fromSearchPath = b > 0 ? n.mid(1, b - 1) : QString(QLatin1Char('.')); r->m_fromExtension = n.mid(b + 1); r->m_toExtension = name.mid(name.lastIndexOf(QLatin1Char('.'))); r->m_toSearchPath = QLatin1String("."); r->m_priority = 0;
            t->m_inferenceRules << r; mk.m_inferenceRules << r;
            QString base = name.mid(name.lastIndexOf(QLatin1Char('/')) + 1); int dot = base.lastIndexOf(QLatin1Char('.')); if (dot < 0) { bad = "malformed case"; break; }
            dn = base.left(dot) + r->m_fromExtension; if (r->m_fromSearchPath != QLatin1String(".")) dn = r->m_fromSearchPath + QDir::separator() + dn;
        } else if (f[i] != "D") { bad = "malformed case"; break; }
        QString key = dn.toLower(); for (auto &s : seen) if (s == key) bad = "malformed case";
        if (!bad.empty()) break;
        seen.push_back(key); add(dn, ft);
        if (f[i] == "D") t->m_dependents << dn;
        if (d.known) { DescriptionBlock *b = new DescriptionBlock(&mk); b->setTargetName(has('U') ? dn.toUpper() : dn); b->m_bFileExists = d.exists; if (d.stamp) b->m_timeStamp = FileTime(sim::stamp(d.stamp)); if (d.cmds) b->m_commands << Command(); mk.append(b); all << b; }
        if (f[i] == "R" && !d.file) continue;
        deps << d;
    }
    std::string res;
    if (bad.empty()) {
        bool exists = !f[1].empty(); long tt = exists ? 1 + atol(f[1].c_str()) : 0;
        bool want = exists; 
        for (auto &d : deps) {
            long x = d.known && d.stamp ? d.stamp : d.file;
            if (d.known && !d.exists && d.cmds) want = false;
            else if (!x || x > tt) want = false;
        }
        QStringList dl = t->m_dependents; auto rl = t->m_inferenceRules;
        DependencyGraph g;
        bool got = g.isTargetUpToDate(t);
        if (got != want) res = std::string("up to date: ") + (got ? "yes" : "no") + " instead of " + (want ? "yes" : "no");
        else if (t->m_dependents != dl) res = "dependents changed: " + show(t->m_dependents);
        else if (t->m_inferenceRules != rl) res = "rules changed";
        else if (t->m_bFileExists != exists) res = "existence not recorded";
    } else res = bad;
    qDeleteAll(all);
    return res;
}
static void gen(Gen &g)
{
    std::vector<std::string> ft = {"", "1", "5", "9"}, kinds = {"", "T", "TC", "TE", "TCE", "TU", "TCU"};
    for (auto &a : ft) for (auto &k : kinds) for (auto &x : ft) for (auto &y : ft) {
        g.put({"t.o", a, "20", "D", "d1", k, x + "," + y});
        g.put({"t.o", a, "3", "D", "d1", k, x + "," + y});
        g.put({"t.o", a, "20", "R", ".c", k, x + "," + y});
        for (auto &x2 : ft) { g.put({"t.o", a, "20", "D", "d1", k, x + "," + y, "D", "d2", "", x2 + ","}); g.put({"t.o", a, "20", "D", "d2", "", x2 + ",", "D", "d1", k, x + "," + y}); g.put({"t.o", a, "20", "D", "d1", k, x + "," + y, "R", ".c", "", x2 + ","}); g.put({"t.o", a, "20", "R", ".cpp", "", x2 + ",", "R", "{dir}.c", k, x + "," + y}); }
    }
    sim::genTimes(g);
    std::vector<std::string> names = {"a", "b.c", "dir\\a.c", "a b.c", "X.C", "..\\y", "dir/z", "t.c"}, exts = {".c", ".cpp", "{dir}.c", "{src}.cc", ".x"};
    for (int n = 0; n < (g.thorough ? 400000 : 60000) && g.more(); ++n) {
        Fields f = {g.chance(70) ? "t.o" : "out/t.o", g.pick(ft), g.chance(80) ? "20" : "3"};
        for (int k = g.r(6); k--;) { bool r = g.chance(30); f.push_back(r ? "R" : "D"); f.push_back(g.pick(r ? exts : names)); f.push_back(g.pick(kinds)); f.push_back(g.pick(ft) + "," + g.pick(ft)); }
        g.put(f);
    }
}
static Reg reg("C12", check, gen);
