#include "world.h"
using namespace NMakeFile;
// a case is a list of definitions: kind, name, value
namespace {
struct Ref {
    struct M { QString value; bool ro; int src; };       // src: 0 command line, 1 implicit, 2 makefile, 3 environment, 4 predefined
    QMap<QString, M> m; QMap<QString, QString> env;      // env: keys in lower case
    MacroTable table() const { MacroTable t; for (auto it = m.begin(); it != m.end(); ++it) t.m_macros[it.key()].value = it->value; return t; }
    static bool okName(const QString &n)
    {
        if (n.isEmpty()) return false;
        for (QChar c : n) if (!(c == '_' || c == '.' || c.isLetterOrNumber())) return false;
        return true;
    }
    QString withOld(const QString &v, const QString &n)
    {
        QString key = "$(" + n + ")", old = m.value(n).value, r; int run = 0;
        for (int i = 0; i < v.length();) {
            if (run % 2 == 0 && v.mid(i, key.length()) == key) { r += old; i += key.length(); run = 0; }
            else { run = v[i] == '$' ? run + 1 : 0; r += v[i++]; }
        }
        return r;
    }
    // throws when a name or value cannot be expanded
    void op(const std::string &k, const QString &name, const QString &value)
    {
        if (k == "set" || k == "pre") {
            QString n = table().expandMacros(name);
            if (!okName(n)) throw Exception("invalid");
            QString v = withOld(value, n); bool ro = m.contains(n) && m[n].ro;
            M &e = m[n]; if (!ro) e.value = v; e.ro = ro; e.src = k == "set" ? 2 : 4;
        } else if (k == "undef") m.remove(name);
        else if (k == "cmd" || k == "imp") {
            QString n = table().expandMacros(name), v = value;
            if (okName(n)) { v = withOld(value, n); m[n] = M{v, true, k == "cmd" ? 0 : 1}; }
            env[name.toLower()] = table().expandMacros(v);
        } else {
            QString u = name.toUpper(); bool ro = k == "envro";
            if (m.contains(u)) {
                if (m[u].src == 0) { m[u].src = 3; env[u.toLower()] = table().expandMacros(m[u].value); }
                return;
            }
            QString x; try { x = table().expandMacros(value); } catch (Exception &) { return; }
            QString n = table().expandMacros(u);
            if (!okName(n)) return;
            QString v = withOld(value, n); bool wasRo = m.contains(n) && m[n].ro;
            M &e = m[n]; if (!wasRo) e.value = v; e.ro = ro; e.src = 3; env[u.toLower()] = x;
        }
    }
};
}
static std::string check(const Fields &f)
{
    if (f.size() % 3) return "malformed case";
    MacroTable mt; Ref ref; ProcessEnvironment e; 
    for (const char *n : {"Path", "OTHER", "a"}) { e[QString(n)] = QString("old") + n; ref.env[QString(n).toLower()] = QString("old") + n; }
    mt.setEnvironment(e);
    for (size_t i = 0; i + 2 < f.size(); i += 3) {
        const std::string &k = f[i]; QString name = Q(f[i + 1]), value = Q(f[i + 2]);
        if (k != "set" && k != "pre" && k != "undef" && k != "cmd" && k != "imp" && k != "env" && k != "envro") return "malformed case";
        bool rerr = false, gerr = false;
        try { ref.op(k, name, value); } catch (Exception &) { rerr = true; }
        try {
            if (k == "set") mt.setMacroValue(name, value);
            else if (k == "pre") mt.predefineValue(name, value);
            else if (k == "undef") mt.undefineMacro(name);
            else if (k == "cmd") mt.defineCommandLineMacroValue(name, value);
            else if (k == "imp") mt.defineImplicitCommandLineMacroValue(name, value);
            else mt.defineEnvironmentMacroValue(name, value, k == "envro");
        } catch (Exception &) { gerr = true; }
        std::string at = "step " + std::to_string(i / 3 + 1) + ": ";
        if (rerr != gerr) return at + (rerr ? "error expected" : "unexpected error");
        for (auto it = ref.m.begin(); it != ref.m.end(); ++it) {
            if (!mt.isMacroDefined(it.key())) return at + "macro " + show(it.key()) + " is not defined";
            if (mt.macroValue(it.key()) != it->value) return at + "macro " + show(it.key()) + " is " + show(mt.macroValue(it.key())) + " instead of " + show(it->value);
        }
        if (mt.m_macros.count() != ref.m.count()) return at + "other macros got defined or undefined";
        QMap<QString, QString> got; const ProcessEnvironment &env = mt.environment();
        for (auto it = env.begin(); it != env.end(); ++it) got[it.key().toQString().toLower()] = it.value();
        if (got != ref.env) { for (auto it = ref.env.begin(); it != ref.env.end(); ++it) if (got.value(it.key()) != it.value()) return at + "environment variable " + show(it.key()) + " is " + show(got.value(it.key())) + " instead of " + show(it.value()); return at + "other environment variables changed"; }
    }
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> kinds = {"set", "set", "set", "pre", "undef", "cmd", "cmd", "imp", "env", "env", "envro"};
    std::vector<std::string> names = {"A", "B", "a", "Ab", "AB", "path", "PATH", "A.1", "_", "a-b", "", "$(A)", "B$(A)", "x y", "\xc3\xa4", "1"};
    std::vector<std::string> pieces = {"v", "w", "$(A)", "$(B)", "$$(A)", "$$", "$(AB)", "$(a)", "$(PATH)", " ", "$$$(A)", "A", "(", "$(A:v=w)", ";", "$P", "$A"};
    for (int n = 0; n < (g.thorough ? 1200000 : 60000) && g.more(); ++n) {
        Fields f;
        for (int k = 1 + int(g.r(6)); k--;) { f.push_back(g.pick(kinds)); f.push_back(g.chance(70) ? names[g.r(5)] : g.pick(names)); f.push_back(g.str(pieces, g.chance(5) ? 12 : 3)); }
        g.put(f);
    }
}
static Reg reg("C02", check, gen);
