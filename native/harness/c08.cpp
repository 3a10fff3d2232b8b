#include "world.h"
#include "dependencygraph.h"
#include "fastfileinfo.h"
#include <map>
#include <set>
using namespace NMakeFile;
// 0: the requested target, 1: schedule (a letter per step: n = ask for the next target, a..d = the first .. fourth running target finishes), 2: number of jobs and options (T: time stamps count, K: failures mark),
// then one rule per field: "name/flags/stamp dependent dependent ..." (flags: C commands, F fails, W writes its file as soon as it runs); dependents without rule are files
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> v; std::string c; for (char ch : s + " ") if (ch == ' ') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; return v; }
static std::string low(std::string s) { for (auto &c : s) c = char(tolower(c)); return s; }
namespace {
struct Rule { std::string name; bool cmds = false, fails = false, writes = false; long stamp = 0; std::set<std::string> deps; };
}
static std::string consistent(DependencyGraph &g)
{
    std::set<DependencyGraph::Node *> all; for (auto it = g.m_nodeContainer.begin(); it != g.m_nodeContainer.end(); ++it) { if (!it.value() || it.value()->target != it.key()) return "node of another target"; all.insert(it.value()); }
    std::set<DependencyGraph::Node *> leaves; for (auto n : g.m_leaves) if (!leaves.insert(n).second) return "a target is ready twice";
    for (auto n : all) {
        for (auto c : n->children) { if (!all.count(c)) return "child that is not in the graph"; if (c->parents.count(n) != 1) return "child does not know its parent"; if (n->children.count(c) != 1) return "double child"; }
        for (auto p : n->parents) { if (!all.count(p)) return "parent that is not in the graph"; if (p->children.count(n) != 1) return "parent does not know its child"; }
        if (n->children.isEmpty() != (leaves.count(n) > 0)) return std::string("target ") + show(n->target->targetName()) + (n->children.isEmpty() ? " is not in the ready set" : " is wrongly in the ready set");
    }
    for (auto n : leaves) if (!all.count(n)) return "ready target that is not in the graph";
    return "";
}
static std::string check(const Fields &f)
{
    if (f.size() < 4 || f[2].empty() || !isdigit(f[2][0])) return "malformed case";
    std::map<std::string, Rule> rules; std::vector<std::string> order;
    for (size_t i = 3; i < f.size(); ++i) {
        auto w = words(f[i]); if (w.empty()) return "malformed case";
        size_t a = w[0].find('/'), b = a == std::string::npos ? a : w[0].find('/', a + 1); if (b == std::string::npos) return "malformed case";
        Rule r; r.name = w[0].substr(0, a); if (r.name.size() < 2) return "malformed case";
        std::string fl = w[0].substr(a + 1, b - a - 1), st = w[0].substr(b + 1); for (char c : st) if (!isdigit(c)) return "malformed case"; if (st.size() > 6) return "malformed case";
        r.cmds = fl.find('C') != std::string::npos; r.fails = fl.find('F') != std::string::npos; r.writes = fl.find('W') != std::string::npos; r.stamp = st.empty() ? 0 : 1 + atol(st.c_str());
        for (size_t j = 1; j < w.size(); ++j) { if (w[j].size() < 2) return "malformed case"; r.deps.insert(low(w[j])); }
        for (auto &n : w) for (char c : n) if (!isalnum((unsigned char)c) && !strchr("_/", c)) return "malformed case";
        for (size_t j = 1; j < w.size(); ++j) if (w[j].find('/') != std::string::npos) return "malformed case";
        if (rules.count(low(r.name))) return "malformed case";
        rules[low(r.name)] = r; order.push_back(f[i].substr(w[0].size()));
    }
    if (!rules.count(low(f[0]))) return "malformed case";
    // acyclic?
    std::map<std::string, int> st; std::set<std::string> need;
    std::vector<std::pair<std::string, std::set<std::string>::iterator>> stack; stack.push_back({low(f[0]), rules[low(f[0])].deps.begin()}); st[low(f[0])] = 1; need.insert(low(f[0]));
    while (!stack.empty()) { auto &top = stack.back(); Rule &r = rules[top.first]; if (top.second == r.deps.end()) { st[top.first] = 2; stack.pop_back(); continue; } std::string d = *top.second++; if (!rules.count(d)) continue; if (st[d] == 1) return "malformed case"; if (st[d]) continue; st[d] = 1; need.insert(d); stack.push_back({d, rules[d].deps.begin()}); }

    static QStringList used; for (auto &u : used) FastFileInfo::clearCacheForFile(u);
    used.clear(); g_win.files.clear(); g_win.now = 1000000;
    QByteArray text; auto fileAt = [&](const std::string &n, long t) { QString q = Q(n); used << q; if (!t) return; QString k = QFileInfo(q).absoluteFilePath(); if (!g_win.cwd.isEmpty() && k.startsWith(g_win.cwd)) k.remove(0, g_win.cwd.length()); g_win.files[k.toLower()] = t; };
    for (auto &n : order) for (auto &d : words(n)) if (!rules.count(low(d))) fileAt(d, 5);
    { size_t i = 0; for (auto &kv : rules) fileAt(kv.second.name, kv.second.stamp); for (size_t k = 3; k < f.size(); ++k, ++i) { auto w = words(f[k]); std::string nm = w[0].substr(0, w[0].find('/')); text += nm.c_str(); text += ":"; text += order[i].c_str(); text += '\n'; if (rules[low(nm)].cmds) text += "\tcmd\n"; } }
    World w; w.parse(text, QStringList() << Q(f[0])); if (w.failed) return "unexpected error: " + show(w.error);
    const bool stamps = f[2].find('T') != std::string::npos, keep = f[2].find('K') != std::string::npos; const size_t jobs = 1 + size_t(f[2][0] - '0') % 4;
    foreach (DescriptionBlock *b, w.mk->targets()) b->m_inferenceRules.clear();
    DependencyGraph g; g.build(w.mk->target(Q(f[0])));
    std::set<std::string> in; for (auto t : g.m_nodeContainer.keys()) in.insert(low(U(t->targetName())));
    if (in != need) return "the graph does not consist of what is needed";
    std::string bad = consistent(g); if (!bad.empty()) return "after building: " + bad;
    for (auto it = g.m_nodeContainer.begin(); it != g.m_nodeContainer.end(); ++it) { std::set<std::string> a, b; for (auto c : it.value()->children) a.insert(low(U(c->target->targetName()))); for (auto &d : rules[low(U(it.key()->targetName()))].deps) if (rules.count(d)) b.insert(d); if (a != b) return "wrong prerequisites of " + show(it.key()->targetName()); }
    std::set<std::string> left = need, handed, unb; std::vector<DescriptionBlock *> running; std::set<std::string> run;
    std::string sched = f[1]; size_t pos = 0; size_t steps = 0; bool wait = false;
    auto missing = [&](const std::string &n) { for (auto &d : rules[n].deps) if (left.count(d)) return d; return std::string(); };
    // what a target that is skipped must have: a file, and nothing it needs is newer (files do not change here; a missing target with commands is as new as possible)
    auto sync = [&](const std::string &what) -> std::string {
        std::set<std::string> now; for (auto t : g.m_nodeContainer.keys()) now.insert(low(U(t->targetName())));
        std::set<std::string> gone; for (auto &n : left) if (!now.count(n)) gone.insert(n);
        for (auto &n : now) if (!left.count(n)) return what + ": " + n + " came back";
        for (auto &n : gone) { for (auto &d : rules[n].deps) if (now.count(d)) return what + ": " + n + " left although " + d + " is not finished"; }
        for (auto &n : gone) { if (run.count(n)) return what + ": the running target " + n + " left"; left.erase(n); if (!stamps) return what + ": " + n + " was never handed out"; }
        return "";
    };
    while (!left.empty()) {
        if (++steps > 4000) return "the build does not end";
        char c = pos < sched.size() ? sched[pos++] : wait ? 'a' : 'n';
        if (c == 'n' && running.size() < jobs) {
            DescriptionBlock *t = g.findAvailableTarget(!stamps);
            std::string e = sync("looking for the next target"); if (!e.empty()) return e;
            bad = consistent(g); if (!bad.empty()) return "after looking for the next target: " + bad;
            if (!t) {
                for (auto &n : left) if (missing(n).empty() && !run.count(n)) return n + " is ready but not handed out";
                if (running.empty() && !left.empty()) return "nothing runs and nothing is ready";
                wait = true; continue;
            }
            std::string n = low(U(t->targetName()));
            if (!left.count(n)) return n + " was handed out after it had finished";
            std::string d = missing(n); if (!d.empty()) return n + " was handed out before " + d + " was finished";
            if (run.count(n)) return n + " was handed out twice";
            if (g.isUnbuildable(t) != (unb.count(n) > 0)) return n + (unb.count(n) ? " can not be built but is tried" : " is taken for unbuildable");
            if (unb.count(n) || t->m_commands.isEmpty()) { g.removeLeaf(t); left.erase(n); e = sync("skipping " + n); if (!e.empty()) return e; bad = consistent(g); if (!bad.empty()) return "after skipping " + n + ": " + bad; wait = false; continue; }
            if (handed.count(n)) return n + " was handed out twice";
            handed.insert(n); if (rules[n].writes) { fileAt(rules[n].name, 900000); FastFileInfo::clearCacheForFile(t->targetName()); t->m_bFileExists = true; } running.push_back(t); run.insert(n); wait = false;
        } else {
            if (running.empty()) { wait = false; continue; }
            size_t k = c >= 'a' && c <= 'd' ? size_t(c - 'a') % running.size() : 0;
            DescriptionBlock *t = running[k]; running.erase(running.begin() + k); std::string n = low(U(t->targetName())); run.erase(n);
            if (rules[n].fails && keep) { g.markParentsRecursivlyUnbuildable(t); bool more = true; unb.insert("/" + n); while (more) { more = false; for (auto &x : left) if (!unb.count(x)) for (auto &d : rules[x].deps) if (d == n || unb.count(d)) { unb.insert(x); more = true; break; } } }
            g.removeLeaf(t); left.erase(n); std::string e = sync("finishing " + n); if (!e.empty()) return e;
            bad = consistent(g); if (!bad.empty()) return "after finishing " + n + ": " + bad;
            for (auto &x : left) { auto nd = g.m_nodeContainer.value(w.mk->target(Q(x))); if (!nd) return x + " is lost"; if ((nd->state == DependencyGraph::Node::Unbuildable) != (unb.count(x) > 0)) return x + (unb.count(x) ? " is not marked as unbuildable" : " is marked as unbuildable"); }
            wait = false;
        }
    }
    if (!g.isEmpty()) return "the graph is not empty at the end";
    if (!stamps) for (auto &n : need) if (rules[n].cmds && !unb.count(n) && !handed.count(n)) return n + " was never handed out";
    return "";
}
static void gen(Gen &g)
{
    auto nm = [](int i) { return std::string(2, char('a' + i)); };
    // all acyclic graphs of four targets, several schedules
    std::vector<std::string> sch = {"", "nnnnnn", "nnbnna", "nnnncban", "nnbannbb"};
    for (unsigned m = 0; m < 64; ++m) for (auto &s : sch) for (int opt = 0; opt < 4; ++opt) {
        Fields f = {"aa", s, opt == 0 ? "3" : opt == 1 ? "1K" : opt == 2 ? "2T" : "3KT"}; unsigned b = 0;
        for (int i = 0; i < 4; ++i) { std::string l = nm(i) + "/" + (opt & 1 && i == 2 ? "CF" : "C") + "/" + (opt & 2 ? std::to_string(10 - (int(m) + i * 3) % 4) : ""); for (int j = i + 1; j < 4; ++j, ++b) if (m >> b & 1) l += " " + nm(j); f.push_back(l); }
        g.put(f);
    }
    for (int n = 0; n < (g.thorough ? 300000 : 30000) && g.more(); ++n) {
        int k = 2 + g.r(9); Fields f = {"t0", "", std::to_string(g.r(4)) + (g.chance(50) ? "K" : "") + (g.chance(50) ? "T" : "")};
        for (int i = g.r(3 * k); i--;) f[1] += g.pick(std::vector<std::string>{"n", "n", "n", "a", "b", "c", "d"});
        auto name = [&](int i) { std::string s = "t" + std::to_string(i); if (g.chance(10)) s[0] = 'T'; return s; };
        std::vector<std::string> rules; int dens = 10 + g.r(60);
        for (int i = 0; i < k; ++i) { std::string l = name(i) + "/" + (g.chance(85) ? "C" : "") + (g.chance(15) ? "F" : "") + (g.chance(40) ? "W" : "") + "/" + (g.chance(60) ? std::to_string(1 + g.r(9)) : ""); std::vector<std::string> d; for (int j = i + 1; j < k; ++j) if (g.chance(dens)) d.push_back(name(j)); if (g.chance(10)) d.push_back("file" + std::to_string(g.r(2))); if (!d.empty() && g.chance(10)) d.push_back(g.pick(d)); if (g.chance(50)) std::reverse(d.begin(), d.end()); for (auto &x : d) l += " " + x; rules.push_back(l); }
        if (g.chance(50)) std::reverse(rules.begin(), rules.end());
        for (auto &x : rules) f.push_back(x);
        g.put(f);
    }
    // wide and deep
    Fields wide = {"t0", "", "3"}, deep = {"t0", "", "3"}; std::string l = "t0/C/"; for (int i = 1; i < 200; ++i) { l += " t" + std::to_string(i); } wide.push_back(l); for (int i = 1; i < 200; ++i) wide.push_back("t" + std::to_string(i) + "/C/");
    for (int i = 0; i < 200; ++i) deep.push_back("t" + std::to_string(i) + "/C/ t" + std::to_string(i + 1)); deep.push_back("t200/C/");
    g.put(wide); g.put(deep);
}
static Reg reg("C08", check, gen);
