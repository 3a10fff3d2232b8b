/* Fields: expressions evaluated one after another by the same parser. X, Y and path.x are defined macros. */
#include "harness.h"
#include "macrotable.h"
#include "ppexprparser.h"
#include <climits>
using namespace NMakeFile;
namespace {
// ---- tokens of the reference: 'n' number, 's' string, otherwise the operator's text
struct Tok { std::string t; long long n = 0; std::string s; };
bool isDefinedMacro(const std::string &n) { return n == "X" || n == "Y" || n == "path_x"; }
// 0 ok, 1 lexical error (unterminated), 2 not judged
int tokenize(const std::string &x, std::vector<Tok> &out)
{
    size_t i = 0;
    auto lower = [](std::string s) { for (char &c : s) c = char(tolower((unsigned char)c)); return s; };
    while (i < x.size()) {
        char c = x[i];
        if (c == ' ' || c == '\t') { ++i; continue; }
        if (isdigit((unsigned char)c)) {
            Tok t; t.t = "n"; size_t k = i;
            while (k < x.size() && isdigit((unsigned char)x[k])) { t.n = t.n * 10 + (x[k] - '0'); if (t.n > INT_MAX) return 2; ++k; }
            i = k; out.push_back(t); continue;
        }
        if (c == '"') {
            Tok t; t.t = "s"; ++i; bool closed = false;
            while (i < x.size()) {
                if (x[i] == '\n') return 2;
                if (x[i] != '"') { t.s += x[i++]; continue; }
                if (i + 1 < x.size() && x[i + 1] == '"') { t.s += '"'; i += 2; continue; }
                closed = true; ++i; break;
            }
            if (!closed) return 1;
            out.push_back(t); continue;
        }
        if (lower(x.substr(i, 7)) == "defined") {
            i += 7;
            while (i < x.size() && (x[i] == ' ' || x[i] == '\t')) ++i;
            if (i >= x.size()) return 1;
            if (x[i] != '(') return 2;
            size_t k = x.find(')', i);
            if (k == std::string::npos || k == i + 1) return x.find('(', i + 1) == std::string::npos && k == std::string::npos ? 1 : 2;
            std::string n = x.substr(i + 1, k - i - 1);
            while (!n.empty() && (n[0] == ' ' || n[0] == '\t')) n.erase(0, 1);
            while (!n.empty() && (n.back() == ' ' || n.back() == '\t')) n.pop_back();
            if (n.size() >= 2 && n[0] == '"' && n.back() == '"') n = n.substr(1, n.size() - 2);
            if (n.empty() || n.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") != std::string::npos) return 2;
            Tok t; t.t = "n"; t.n = isDefinedMacro(n); out.push_back(t); i = k + 1; continue;
        }
        static const char *ops[] = {"&&", "||", "!=", "==", "<=", ">=", "<<", ">>", "&", "|", "<", ">", "+", "-", "*", "/", "%", "~", "!", "(", ")"};
        bool found = false;
        for (const char *o : ops) if (x.compare(i, strlen(o), o) == 0) { Tok t; t.t = o; out.push_back(t); i += strlen(o); found = true; break; }
        if (!found) return 2;
    }
    return 0;
}
// value: known or not (overflow), error
struct Val { bool known = true; long long v = 0; };
struct Err {};      // malformed
struct Zero {};     // certainly a division by zero
struct Maybe {};    // depends on an unspecified value
struct Ref {
    const std::vector<Tok> &t; size_t i = 0;
    Ref(const std::vector<Tok> &tt) : t(tt) {}
    bool is(const char *o) const { return i < t.size() && t[i].t == o; }
    bool any(std::initializer_list<const char *> l, std::string &o) { for (const char *c : l) if (is(c)) { o = c; ++i; return true; } return false; }
    struct Node { std::string op; Val leaf; bool lit = false; std::vector<Node> k; };
    Node prim()
    {
        if (is("n")) { Node n; n.lit = true; n.leaf.v = t[i++].n; return n; }
        if (is("(")) { ++i; Node n = low(); if (!is(")")) throw Err(); ++i; return n; }
        throw Err();
    }
    Node pre() { std::string o; if (any({"-", "~", "!"}, o)) { Node n; n.op = "u" + o; n.k.push_back(prim()); return n; } return prim(); }
    Node bin(int level)
    {
        if (level == 4) return pre();
        Node l = bin(level + 1); std::string o;
        while (level == 0 ? any({"==", "!=", "<", ">", "<=", ">="}, o) : level == 1 ? any({"<<", ">>"}, o) : level == 2 ? any({"+", "-"}, o) : any({"*", "/", "%"}, o)) {
            Node n; n.op = o; n.k.push_back(l); n.k.push_back(bin(level + 1)); l = n;
        }
        return l;
    }
    Node operand()
    {
        if (is("s")) {
            std::string a = t[i++].s, o; if (!any({"==", "!="}, o) || !is("s")) throw Err();
            Node n; n.lit = true; n.leaf.v = ((a == t[i].s) == (o == "==")); ++i; return n;
        }
        return bin(0);
    }
    Node low()
    {
        Node l = operand(); std::string o;
        while (any({"&&", "||", "&", "|"}, o)) { Node n; n.op = o; n.k.push_back(l); n.k.push_back(operand()); l = n; }
        return l;
    }
    static Val eval(const Node &n)
    {
        if (n.lit) return n.leaf;
        Val a = eval(n.k[0]), r;
        if (n.k.size() == 1) {
            if (!a.known) return a;
            r.v = n.op == "u-" ? -a.v : n.op == "u~" ? ~a.v : a.v == 0;
            if (r.v > INT_MAX) r.known = false;
            return r;
        }
        Val b = eval(n.k[1]);
        const std::string &o = n.op;
        if (o == "/" || o == "%") {
            if (!b.known) throw Maybe();
            if (b.v == 0) throw Zero();
            if (!a.known) return a;
            if (o == "/") { r.v = a.v / b.v; if (r.v > INT_MAX) r.known = false; } else r.v = a.v % b.v;
            return r;
        }
        if (!a.known) return a;
        if (!b.known) return b;
        if (o == "<<") { if (b.v < 0 || b.v > 31) { r.known = false; return r; } r.v = (long long)((unsigned long long)a.v << b.v); if (r.v > INT_MAX || r.v < INT_MIN) r.known = false; return r; }
        if (o == ">>") { if (b.v < 0 || b.v > 31) { r.known = false; return r; } r.v = a.v >> b.v; return r; }
        if (o == "&&") r.v = a.v && b.v; else if (o == "||") r.v = a.v || b.v; else if (o == "&") r.v = a.v & b.v; else if (o == "|") r.v = a.v | b.v;
        else if (o == "==") r.v = a.v == b.v; else if (o == "!=") r.v = a.v != b.v; else if (o == "<") r.v = a.v < b.v; else if (o == ">") r.v = a.v > b.v;
        else if (o == "<=") r.v = a.v <= b.v; else if (o == ">=") r.v = a.v >= b.v;
        else if (o == "+") r.v = a.v + b.v; else if (o == "-") r.v = a.v - b.v; else if (o == "*") r.v = a.v * b.v;
        if (r.v > INT_MAX || r.v < INT_MIN) { r.known = false; r.v = 0; }
        return r;
    }
};
}
static std::string check(const Fields &f)
{
    if (f.empty()) return "malformed case";
    MacroTable mt;
    mt.setMacroValue("X", "1"); mt.setMacroValue("Y", QString()); mt.setMacroValue("path_x", "0");
    PPExprParser p; p.setMacroTable(&mt);
    for (size_t k = 0; k < f.size(); ++k) {
        const std::string &x = f[k];
        if (x.find('[') != std::string::npos || x.find('\0') != std::string::npos) return "malformed case";   // would run a command
        std::vector<Tok> toks; int lex = tokenize(x, toks);
        bool ok = p.parse(x.c_str());
        int got = ok ? p.expressionValue() : 0;
        if (lex == 2) continue;
        std::string at = "expression " + std::to_string(k + 1) + " " + show(Q(x)) + ": ";
        bool bad = lex == 1, zero = false, maybe = false; Val v;
        if (!bad) {
            Ref r(toks);
            try { Ref::Node n = r.low(); if (r.i != toks.size()) throw Err(); v = Ref::eval(n); }
            catch (Err) { bad = true; } catch (Zero) { zero = true; } catch (Maybe) { maybe = true; }
        }
        if (maybe) continue;
        // a parser may stop at a division by zero before it sees a later syntax error: both are errors
        if (bad || zero) { if (ok) return at + (bad ? "accepted although it is malformed" : "division by zero accepted") + ", value " + std::to_string(got); if (p.errorMessage().isEmpty()) return at + "error without a message"; continue; }
        if (!ok) return at + "rejected: " + p.errorMessage().constData();
        if (v.known && got != v.v) return at + "value " + std::to_string(got) + " instead of " + std::to_string(v.v);
    }
    return "";
}
static void gen(Gen &g)
{
    static const std::vector<std::string> num = {"0", "1", "2", "3", "7", "12", "31", "32", "255", "65536", "2147483647", "defined(X)", "DEFINED ( nope )", "defined(\"Y\")"};
    static const std::vector<std::string> bin = {"&&", "||", "&", "|", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%"};
    static const std::vector<std::string> pre = {"-", "~", "!"};
    static const std::vector<std::string> strs = {"\"\"", "\"a\"", "\"b\"", "\"a b\"", "\"a\"\"\"", "\"\"\"\"", "\"1\"", "\" a\"", "\"A\"", "\"aA\"", "\"\xe4\"", "\"\xc4\"", "\"01\"", "\"a \""};
    // every pair of operators around small numbers (precedence and associativity), with prefix operators and parentheses
    const char *triples[][3] = {{"7", "3", "2"}, {"1", "0", "4"}, {"12", "5", "3"}, {"2", "2", "1"}};
    for (auto &t : triples) for (auto &o : bin) for (auto &q : bin) {
        std::string a = t[0], b = t[1], c = t[2];
        g.put({a + o + b + q + c}); g.put({"(" + a + o + b + ")" + q + c}); g.put({a + o + "(" + b + q + c + ")"});
        for (auto &u : pre) { g.put({u + a + o + b + q + c}); g.put({a + o + u + b + q + c}); g.put({a + o + b + q + u + c}); g.put({u + "(" + a + o + b + ")" + q + c}); }
    }
    for (auto &a : strs) for (auto &b : strs) for (const char *o : {"==", "!=", " == "}) g.put({a + o + b});
    // all short token sequences, joined by blanks
    std::vector<std::string> all = {"1 ", "2 ", "\"a\" ", "\"b\" ", "( ", ") ", "- ", "! ", "~ ", "+ ", "* ", "% ", "/ ", "<< ", "< ", "== ", "!= ", "&& ", "| ", "0 "};
    allStrings(all, g.thorough ? 4 : 3, [&](const std::string &s) { g.put({s}); });
    for (auto &a : std::vector<std::string>{"-2147483647-1", "2147483647", "0", "1", "-1", "2"})
        for (auto &b : std::vector<std::string>{"-2147483647-1", "2147483647", "0", "1", "-1", "31", "30"})
            for (auto &o : bin) g.put({"(" + a + ")" + o + "(" + b + ")"});
    for (int d : {5, 60, 64, 120, 125, 126, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513, 600, 1030}) {
        std::string l(d, '('), r(d, ')');
        g.put({l + "1+2" + r + "*3", "4"}); g.put({l + "1", "3"}); std::string m; for (int i = 0; i < d; ++i) m += "1+("; g.put({m + "1" + r});
        std::string c = "1"; for (int i = 0; i < d; ++i) c += i % 2 ? " -3" : " + 5"; g.put({c});
        m.clear(); for (int i = 0; i < d; ++i) m += "1 || ("; g.put({m + "\"a\" == \"a\"" + r});
    }
    std::vector<std::string> bads = {"\"abc", "1 \"abc", "defined", "1 + defined", "", " ", "\"a\" ==", "(", ")", "1 1", "\"a\"", "\"a\" < \"b\"", "1 == \"a\"", "--1", "1 +", "defined X", "EXIST", "\"a\"b", "1 % 0", "1 / (2 - 2)", "\"\"\"", "(1))"};
    for (auto &a : bads) for (auto &b : bads) g.put({a, b, "1 + 2", "\"x\" == \"x\""});
    std::function<std::string(int, int)> ex = [&](int d, int level) -> std::string {
        auto sp = [&] { return std::string(g.chance(30) ? " " : ""); };
        if (d <= 0 || g.chance(15)) return (g.chance(20) ? g.pick(pre) : std::string()) + g.pick(num);
        if (level == 0 && g.chance(10)) return "(" + g.pick(strs) + sp() + std::string(g.chance(50) ? "==" : "!=") + sp() + g.pick(strs) + ")";
        if (g.chance(15)) return g.pick(pre) + sp() + "(" + ex(d - 1, 0) + ")";
        if (g.chance(25)) return "(" + sp() + ex(d - 1, 0) + sp() + ")";
        return ex(d - 1, 1) + sp() + g.pick(bin) + sp() + ex(d - 1, 1);
    };
    std::vector<std::string> pieces = {"1", "2", "0", " ", "(", ")", "-", "!", "~", "\"", "\"a\"", "==", "!=", "&&", "||", "&", "|", "<", ">", "=", "+", "*", "/", "%", "<<", ">>", "defined(X)", "defined (Z)", "defined", "\"b\"", "3"};
    for (int n = 0; n < (g.thorough ? 3000000 : 120000) && g.more(); ++n) {
        Fields f; for (unsigned k = 1 + g.r(3); k--;) f.push_back(g.chance(70) ? ex(int(1 + g.r(5)), 0) : g.str(pieces, 9));
        g.put(f);
    }
}
static Reg reg("C04", check, gen);
