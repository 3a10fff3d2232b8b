#include "world.h"
using namespace NMakeFile;
// 0: target (as a dependent of "all"), 1: suffixes (blank separated, "" = as built in; first word +: added to those built in; word /: on a further line;
// word !: forget all), 2: D (described) C (with a command) B (batch rules allowed off) Q (named in quotes), 3: dependents of the target,
// then groups of three: R, "{dir}.c{out}.obj:", command   F, file, ""   T, described target, E (is known to exist)
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> v; std::string c; for (char ch : s + " ") if (ch == ' ') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; return v; }
static std::string low(std::string s) { for (auto &c : s) c = char(tolower(c)); return s; }
static bool ok(const std::string &s, const char *extra) { for (char c : s) if (!isalnum((unsigned char)c) && !strchr(extra, c)) return false; return true; }
static std::string check(const Fields &f)
{
    if (f.size() < 4 || (f.size() - 4) % 3) return "malformed case";
    const std::string &name = f[0]; if (name.size() < 2 || !ok(name, "._/") || name.back() == '/' || name.back() == '.' || name[0] == '/' || name == "all" || name[0] == '.') return "malformed case";
    if (name.find("//") != std::string::npos) return "malformed case";
    if (!ok(f[1], "./+! ") || !ok(f[2], "") || !ok(f[3], "._/ ")) return "malformed case";
    bool described = f[2].find('D') != std::string::npos, own = f[2].find('C') != std::string::npos, nobatch = f[2].find('B') != std::string::npos;
    if (own) described = true;
    struct R { std::string fd, fe, td, te, cmd; bool batch; int prio; };
    std::vector<R> rules; std::vector<std::string> files, known, plain;
    std::vector<std::string> sfx = {".exe", ".obj", ".asm", ".c", ".cpp", ".cxx", ".bas", ".cbl", ".for", ".pas", ".res", ".rc"};
    QByteArray text;
    if (!f[1].empty()) {
        auto ws = words(f[1]); bool open = false;
        if (!ws.empty() && ws[0] == "+") ws.erase(ws.begin()); else { text += ".SUFFIXES:\n"; sfx.clear(); }
        for (auto &w : ws) {
            if (w == "/") { if (open) text += '\n'; open = false; continue; }
            if (w == "!") { if (open) text += '\n'; open = false; text += ".SUFFIXES :\n"; sfx.clear(); continue; }
            if (w[0] != '.' || w.size() < 2 || !ok(w.substr(1), "")) return "malformed case";
            if (!open) text += ".SUFFIXES:"; open = true; text += ' '; text += w.c_str(); sfx.push_back(w);
        }
        if (open) text += '\n';
    }
    std::vector<std::string> deps = words(f[3]); for (auto &d : deps) if (d.size() < 2 || d[0] == '.' || low(d) == low(name) || d.back() == '/' || d.back() == '.') return "malformed case";
    if (!deps.empty()) described = true;
    QByteArray blocks;
    for (size_t i = 4; i + 2 < f.size(); i += 3) {
        const std::string &s = f[i + 1];
        if (f[i] == "R") {
            R r; size_t p = 0; std::string t = s;
            auto dir = [&](std::string &d) { d = "."; if (p < t.size() && t[p] == '{') { size_t e = t.find('}', p); if (e == std::string::npos || e == p + 1) return false; d = t.substr(p + 1, e - p - 1); if (!ok(d, "._") || d.empty()) return false; p = e + 1; } return true; };
            auto ext = [&](std::string &x) { if (p >= t.size() || t[p] != '.') return false; size_t e = p + 1; while (e < t.size() && (isalnum((unsigned char)t[e]) || t[e] == '_')) ++e; x = t.substr(p, e - p); p = e; return x.size() > 1; };
            if (!dir(r.fd) || !ext(r.fe) || !dir(r.td) || !ext(r.te)) return "malformed case";
            r.batch = t.substr(p) == "::"; if (!r.batch && t.substr(p) != ":") return "malformed case";
            if (!ok(f[i + 2], "") || f[i + 2].empty()) return "malformed case";
            r.cmd = f[i + 2]; r.prio = -1; for (size_t k = 0; k < sfx.size() && r.prio < 0; ++k) if (low(sfx[k]) == low(r.fe)) r.prio = int(k);
            rules.push_back(r); text += (s + "\n\t" + r.cmd + " $<\n").c_str();
        } else if (f[i] == "F") { if (!ok(s, "._/") || s.size() < 2 || s.back() == '/' || s[0] == '/' || s.find("..") != std::string::npos) return "malformed case"; files.push_back(s); }
        else if (f[i] == "T") { if (!ok(s, "._/") || s.size() < 2 || s.back() == '/' || s[0] == '/' || s[0] == '.' || s == "all" || low(s) == low(name)) return "malformed case"; (f[i + 2] == "E" ? known : plain).push_back(s); blocks += (s + ":\n\n").c_str(); }
        else return "malformed case";
    }
    // a rule must not create further targets that matter
    bool quoted = f[2].find('Q') != std::string::npos; text += ("all: " + (quoted ? "\"" + name + "\"" : name) + "\n\n").c_str();
    if (described) { text += (name + ":").c_str(); for (auto &d : deps) text += (" " + d).c_str(); text += own ? "\n\tkeep $@\n" : "\n\n"; }
    text += blocks;
    QString old = QDir::currentPath(), dir = scratchDir() + QLatin1String("/c16"); QDir().mkpath(dir); QDir::setCurrent(dir);
    for (auto &p : files) { QDir().mkpath(QFileInfo(Q(p)).path()); writeFile(dir + QLatin1Char('/') + Q(p), "x"); }
    std::string res;
    {
        World w; w.opt.batchModeEnabled = !nobatch; w.parse(text);
        auto run = [&]() -> std::string {
            if (w.failed) return "unexpected error: " + show(w.error);
            std::string base = name.substr(name.rfind('/') + 1), td = name.size() > base.size() ? name.substr(0, name.size() - base.size() - 1) : ".";
            std::vector<R *> cand; R *best = 0; bool tie = false;
            auto src = [&](R *r, bool dot) { std::string b = base.substr(0, base.size() - std::min(base.size(), r->te.size())) + r->fe; return r->fd == "." && !dot ? b : r->fd + "/" + b; };
            for (auto &r : rules) {
                if (name.size() < r.te.size() || low(name.substr(name.size() - r.te.size())) != low(r.te) || r.td != td || r.prio < 0) continue;
                if (base.size() < r.te.size()) return "malformed case";
                cand.push_back(&r);
            }
            DescriptionBlock *t = w.mk->target(Q(name));
            if (!t) return described ? "target lost" : !cand.empty() ? "no inference rule selected for the undescribed target" : "";
            if (!described && cand.empty()) return "target without rules created";
            foreach (DescriptionBlock *b, w.mk->targets()) for (auto &k : known) if (low(U(b->targetName())) == low(k)) b->m_bFileExists = true;
            for (R *r : cand) {
                std::string s = src(r, true); bool e = QFile::exists(Q(s)); for (auto &k : known) if (k == low(k) && s == low(s) && s == k) e = true; else if (low(k) == low(s)) return "malformed case";
                if (!e) continue;
                if (!best || r->prio <= best->prio) { if (best && best->prio == r->prio && (best->te != r->te)) tie = true; else if (best && r->prio < best->prio) tie = false; best = r; }
            }
            if (tie) return "";
            QStringList want; for (auto &d : deps) want << Q(d);
            if (want.removeDuplicates()) return "malformed case";
            w.mk->applyInferenceRules(QList<DescriptionBlock *>() << t);
            if (own) { if (t->m_commands.count() != 1 || !t->m_commands.first().m_commandLine.startsWith(QLatin1String("keep"))) return "commands of its own replaced"; if (t->m_dependents != want) return "dependents changed: " + show(t->m_dependents); return ""; }
            if (!best) { if (!t->m_commands.isEmpty()) return "commands although no rule applies: " + show(t->m_commands.first().m_commandLine); if (t->m_dependents != want) return "dependents changed: " + show(t->m_dependents); return ""; }
            QString s = Q(src(best, false)); if (!want.contains(s)) want << s;
            if (t->m_commands.count() != 1) return std::to_string(t->m_commands.count()) + " commands, rule " + best->cmd + " expected";
            QString cl = t->m_commands.first().m_commandLine.trimmed(), wcl = Q(best->cmd) + QLatin1Char(' ') + s;
            if (cl != wcl) return "command " + show(cl) + " instead of " + show(wcl);
            if (t->m_dependents != want) return "dependents " + show(t->m_dependents) + " instead of " + show(want);
            if (!t->m_inferenceRules.isEmpty()) return "rules left on the target";
            return "";
        };
        res = run();
    }
    for (auto &p : files) QFile::remove(dir + QLatin1Char('/') + Q(p));
    QDir::setCurrent(old);
    return res;
}
static void gen(Gen &g)
{
    std::vector<std::string> names = {"foo.obj", "out/foo.obj", "Foo.OBJ", "a.b.obj", "foo.objx", "foo.exe", "xobj", "foo.i"},
        rules = {".c.obj:", ".cpp.obj:", "{src}.c.obj:", "{src}.cpp{out}.obj:", ".c{out}.obj:", ".C.OBJ:", ".zz.obj:", ".c.obj::", "{src}.cpp.obj::", ".obj.exe:", ".cpp.Obj:", ".asm.obj:", ".zz.i:", "{src}.zz.i:", ".c.exe:"},
        files = {"foo.c", "foo.cpp", "src/foo.c", "src/foo.cpp", "a.b.c", "foo.zz", "foo.asm", "out/foo.c", "Foo.c", "src/foo.zz", "src/a.b.cpp", "foo.obj"},
        sfx = {"", ".c .cpp", ".cpp .c", ".zz .asm .C", ".cpp", ".obj .zz .cpp .c", ".c .cpp .c .asm", ".cpp / .c", "+ .zz", ".c ! .cpp / .c", ".zz .c / .cpp", "!"};
    for (auto &s : sfx) for (auto &r : rules) for (auto &q : rules) for (int k = 0; k < 4; ++k) {
        if (!g.more()) return;
        Fields f = {"foo.obj", s, k == 1 ? "D" : k == 3 ? "Q" : "", ""}; auto add = [&](const char *a, const std::string &b, const char *c) { f.push_back(a); f.push_back(b); f.push_back(c); };
        add("R", r, "one"); add("R", q, "two"); if (k != 2) add("F", "foo.c", ""); if (k != 3) add("F", "foo.cpp", ""); if (k > 1) add("F", "src/foo.cpp", "");
        g.put(f);
    }
    for (int n = 0; n < (g.thorough ? 400000 : 40000) && g.more(); ++n) {
        Fields f = {g.chance(50) ? "foo.obj" : g.pick(names), g.pick(sfx), "", ""}; auto add = [&](const char *a, const std::string &b, const std::string &c) { f.push_back(a); f.push_back(b); f.push_back(c); };
        if (g.chance(30)) f[2] += "D"; if (g.chance(8)) f[2] += "C"; if (g.chance(20)) f[2] += "B"; if (g.chance(20)) f[2] += "Q";
        if (g.chance(40)) { std::string a = g.pick(files), b = g.pick(files); f[3] = a == b || g.chance(30) ? a : a + " " + b; }
        for (int k = 1 + g.r(5), j = 0; j < k; ++j) add("R", g.pick(rules), "r" + std::to_string(j));
        for (int k = g.r(5); k--;) add("F", g.pick(files), "");
        if (g.chance(25)) for (int k = g.r(3); k--;) add("T", g.chance(70) ? g.pick(files) : "src/foo.c", g.chance(60) ? "E" : "");
        g.put(f);
    }
}
static Reg reg("C16", check, gen);
