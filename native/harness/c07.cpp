#include "world.h"
#include <map>
#include <set>
using namespace NMakeFile;
// 0: targets to be built (separated by blanks), then one rule per field: "target dependent dependent ..."
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> v; std::string c; for (char ch : s + " ") if (ch == ' ') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; return v; }
static std::string low(std::string s) { for (auto &c : s) c = char(tolower(c)); return s; }
namespace {
struct Ref {
    std::map<std::string, std::vector<std::string>> g; std::map<std::string, int> state;   // 1: on the path, 2: done
    bool has(const std::string &n, std::string &k) { k = low(n); if (g.count(k)) return true; for (auto &c : k) if (c == '/') c = '\\'; return g.count(k) > 0; }
    bool cyclic(const std::string &start)
    {
        std::vector<std::pair<std::string, size_t>> st; st.push_back({start, 0}); if (state[start]) return false; state[start] = 1;
        while (!st.empty()) {
            std::string n = st.back().first; auto &d = g[n];
            if (st.back().second == d.size()) { state[n] = 2; st.pop_back(); continue; }
            std::string k; if (!has(d[st.back().second++], k)) continue;
            if (state[k] == 1) return true;
            if (!state[k]) { state[k] = 1; st.push_back({k, 0}); }
        }
        return false;
    }
};
}
static std::string check(const Fields &f)
{
    if (f.size() < 2) return "malformed case";
    Ref ref; QByteArray text; std::string first;
    for (size_t i = 0; i < f.size(); ++i) for (char c : f[i]) if (!isalnum((unsigned char)c) && !strchr(" _/\\", c)) return "malformed case";
    for (size_t i = 1; i < f.size(); ++i) {
        auto w = words(f[i]); if (w.empty() || w[0].find('/') != std::string::npos || w[0].back() == '\\') return "malformed case";
        if (w[0].size() < 2) return "malformed case";   // a drive letter
        for (auto &x : w) if (x.back() == '\\' || x.back() == '/') return "malformed case";
        if (first.empty()) first = low(w[0]);
        text += w[0].c_str(); text += ":"; for (size_t j = 1; j < w.size(); ++j) { text += ' '; text += w[j].c_str(); } text += '\n';
        auto &d = ref.g[low(w[0])]; d.insert(d.end(), w.begin() + 1, w.end());
    }
    QStringList act; std::vector<std::string> start;
    for (auto &a : words(f[0])) { std::string k; if (!ref.has(a, k)) return "malformed case"; act << Q(a); start.push_back(k); }
    if (start.empty()) start.push_back(first);
    bool want = false; for (auto &s : start) if (ref.cyclic(s)) want = true;
    World w; w.parse(text, act);
    bool got = w.failed && w.error.contains(QLatin1String("cycle"));
    if (w.failed && !got) return "unexpected error: " + show(w.error);
    if (got != want) return got ? "acyclic graph rejected: " + show(w.error) : "cycle not detected";
    if (!got) foreach (DescriptionBlock *b, w.mk->targets()) {
        if (b->m_bVisitedByCycleCheck) return "mark left on " + show(b->targetName());
        auto it = ref.g.find(low(U(b->targetName()))); if (it == ref.g.end()) return "unexpected target " + show(b->targetName());
        std::set<std::string> x, y; for (auto &d : it->second) x.insert(low(d)); foreach (const QString &d, b->m_dependents) y.insert(low(U(d)));
        if (x != y) return "dependents changed: " + show(b->m_dependents);
    }
    return "";
}
static void gen(Gen &g)
{
    // every graph of three targets
    for (unsigned m = 0; m < 512; ++m) {
        Fields f = {""};
        for (int a = 0; a < 3; ++a) { std::string l(2, char('a' + a)); for (int b = 0; b < 3; ++b) if (m >> (a * 3 + b) & 1) l += " " + std::string(2, char('a' + b)); f.push_back(l); }
        for (auto act : {"", "aa", "bb", "CC", "cc aa", "aa bb cc"}) { f[0] = act; g.put(f); }
    }
    auto num = [](int i) { return "t" + std::to_string(i); };
    for (int close = 0; close < 3; ++close) {
        Fields f = {""}, h = {""}, d = {""};
        for (int i = 0; i < 300; ++i) { f.push_back(num(i) + " " + num(i + 1)); h.push_back(num(299 - i) + " " + num(300 - i)); }
        for (int i = 0; i < 40; ++i) { d.push_back(num(i) + " a" + num(i) + " b" + num(i)); d.push_back("a" + num(i) + " " + num(i + 1)); d.push_back("b" + num(i) + " " + num(i + 1)); }
        if (close) { f.push_back(num(300) + " " + num(close == 1 ? 0 : 150)); h.push_back(num(300) + " " + num(close == 1 ? 300 : 299)); d.push_back(num(40) + " " + num(close == 1 ? 0 : 39)); }
        h[0] = "t0"; g.put(f); g.put(h); g.put(d);
    }
    for (int n = 0; n < (g.thorough ? 200000 : 20000) && g.more(); ++n) {
        int k = 2 + g.r(9); Fields f = {""};
        std::vector<std::string> nm; for (int i = 0; i < k; ++i) nm.push_back(g.chance(20) ? "d\\x" + std::to_string(i) : g.chance(30) ? "Tgt" + std::to_string(i) : "n" + std::to_string(i));
        auto vary = [&](std::string s) { for (auto &c : s) { if (g.chance(15)) c = char(toupper(c)); if (c == '\\' && g.chance(40)) c = '/'; } return s; };
        bool dag = g.chance(60); int edges = g.r(2 * k + 2);
        std::vector<std::string> l = nm;
        while (edges--) { int a = g.r(k), b = g.r(k); if (dag && a == b) continue; if (dag && a > b) std::swap(a, b); l[a] += " " + (g.chance(5) ? "unknown" : vary(nm[b])); }
        if (g.chance(30)) std::reverse(l.begin(), l.end());
        for (auto &x : l) f.push_back(x);
        if (g.chance(20)) { int a = g.r(k), b = g.r(k); if (!dag || a < b) f.push_back(nm[a] + " " + vary(nm[b])); }
        if (g.chance(10)) { int a = g.r(k), b = g.r(k); f.push_back(nm[b] + " " + nm[a]); }
        for (int i = g.r(4); i--;) f[0] += vary(nm[g.r(k)]) + " ";
        g.put(f);
    }
}
static Reg reg("C07", check, gen);
