#include "world.h"
using namespace NMakeFile;
// field 0: the line
static int hashPos(const QString &s, const QVector<bool> &q) { for (int i = 0; i < s.length(); ++i) if (s[i] == QLatin1Char('#') && !q[i] && !(i && s[i - 1] == QLatin1Char('^'))) return i; return -1; }
static int semiPos(const QString &s, const QVector<bool> &q) { for (int i = 0; i < s.length(); ++i) if (s[i] == QLatin1Char(';') && !q[i]) return i; return -1; }
static QString un(const QString &s) { QString o; for (int i = 0; i < s.length(); ++i) { if (s[i] == QLatin1Char('^') && i + 1 < s.length() && s[i + 1] == QLatin1Char('#')) continue; o += s[i]; } return o; }
static QStringList names(const QString &s)
{
    QStringList l; QString cur; bool q = false;
    auto flush = [&] { QString t = cur.trimmed(); cur.clear(); if (t.startsWith(QLatin1Char('"')) && t.endsWith(QLatin1Char('"'))) t = t.length() < 2 ? QString() : t.mid(1, t.length() - 2); if (!t.isEmpty()) l << t; };
    for (QChar c : s) { if (c == QLatin1Char('"')) q = !q; if (!q && (c == QLatin1Char(' ') || c == QLatin1Char('\t'))) flush(); else cur += c; }
    flush();
    return l;
}
static std::string check(const Fields &f)
{
    if (f.size() < 1) return "malformed case";
    QString s = Q(f[0]);
    if (s.startsWith(QLatin1Char('#')) || s.startsWith(QLatin1Char('!')) || s.startsWith(QLatin1Char('.'))) return "malformed case";
    for (int i = 0; i < s.length(); ++i) {
        QChar c = s[i];
        if (c.unicode() < 32 && c != QLatin1Char('\t')) return "malformed case";
        if (c.unicode() > 126 || QString::fromLatin1("$=\\*?<").contains(c)) return "malformed case";
        if (c == QLatin1Char('^') && (i + 1 >= s.length() || s[i + 1] != QLatin1Char('#'))) return "malformed case";
    }
    if (QRegExp(QLatin1String("^(\\{.*\\})?(\\.\\w+)(\\{.*\\})?(\\.\\w+)(:{1,2})")).exactMatch(s)) return "malformed case";
    // reference
    QVector<bool> q; bool in = false; for (QChar c : s) { if (c == QLatin1Char('"')) in = !in; q << in; }
    int h = hashPos(s, q), m = semiPos(s, q);
    QString line, cmd; bool hasCmd = false;
    if (h >= 0 && (m < 0 || h < m)) line = un(s.left(h));
    else if (m < 0) line = un(s);
    else { line = un(s.left(m)); cmd = s.mid(m + 1).trimmed(); hasCmd = true; }
    QString whole = hasCmd ? line + s.mid(m) : line;
    int sep = -1, depth = 0;
    bool block = !whole.isEmpty() && !whole[0].isSpace();
    if (block) for (int i = 0; i < whole.length(); ++i) {
        if (whole[i] == QLatin1Char('(')) ++depth;
        else if (whole[i] == QLatin1Char(')')) --depth;
        else if (whole[i] == QLatin1Char(':') && !depth) {
            if (i == 1 && whole[0].isLetter()) continue;
            if (i > 1 && whole[i - 1].isLetter() && (whole[i - 2].isSpace() || whole[i - 2] == QLatin1Char('"'))) continue;
            sep = i; break;
        }
    }
    if (sep < 0) block = false;
    if (block && hasCmd && sep >= line.length()) return "malformed case: colon inside the command";
    if (cmd.startsWith(QLatin1Char('@')) || cmd.startsWith(QLatin1Char('-')) || cmd.startsWith(QLatin1Char('!'))) return "malformed case";
    QStringList to, deps;
    int seplen = 1;
    if (block) {
        if (sep + 1 < line.length() && line[sep + 1] == QLatin1Char(':')) seplen = 2;
        QString n = line.left(sep).trimmed(), d = line.mid(sep + seplen).trimmed();
        to = names(n.replace(QLatin1Char('/'), QDir::separator())); deps = names(d.replace(QLatin1Char('/'), QDir::separator()));
    }
    if (deps.contains(QLatin1String(".SYNC")) || to.contains(QLatin1String(".NOTPARALLEL"))) return "malformed case";
    World w; 
    bool ok = w.parse(s.toUtf8() + "\n");
    bool cycle = w.error.contains(QLatin1String("cycle"));
    if (s.trimmed().isEmpty()) { if (!ok) return "blank line reported as " + show(w.error); return w.mk->targets().isEmpty() ? "" : "blank line defines targets"; }
    if (!block) return !ok && !cycle ? "" : "not a description block, but no syntax error reported";
    if (!ok && !cycle) return "error " + show(w.error) + " for a description block";
    QMap<QString, QPair<QString, QPair<int, int>>> exp;
    for (const QString &t : to) { auto &e = exp[t.toLower()]; if (!e.second.first++) e.first = t; }
    if (w.mk->targets().count() != exp.count()) return std::to_string(w.mk->targets().count()) + " targets instead of " + show(to);
    for (auto it = exp.begin(); it != exp.end(); ++it) {
        DescriptionBlock *b = w.mk->targets().value(it.key());
        if (!b) return "target " + show(it.key()) + " missing";
        QString tn = it->first; 
        QString bn = b->targetName();
        if (bn != tn) return "target is named " + show(bn) + " instead of " + show(tn);
        QStringList want; for (int i = 0; i < it->second.first; ++i) want += deps;
        QStringList got = b->m_dependents; if (deps.contains(bn, Qt::CaseInsensitive)) { got.removeDuplicates(); want.removeDuplicates(); }
        if (got != want) return "dependents of " + show(bn) + " are " + show(b->m_dependents) + " instead of " + show(want);
        if (b->m_canAddCommands != (seplen == 2 ? DescriptionBlock::ACSEnabled : DescriptionBlock::ACSDisabled)) return "wrong kind of separator";
        if (!hasCmd && !b->m_commands.isEmpty()) return "unexpected command";
        if (hasCmd && cmd.isEmpty()) continue;
        if (hasCmd && (b->m_commands.isEmpty() || b->m_commands.first().m_commandLine != cmd)) return "command is " + (b->m_commands.isEmpty() ? "missing" : show(b->m_commands.first().m_commandLine)) + " instead of " + show(cmd);
    }
    if (!to.isEmpty() && w.mk->firstTarget() != w.mk->targets().value(to.first().toLower())) return "wrong first target";
    return "";
}
static void gen(Gen &g)
{
    std::vector<std::string> a = {"a", ":", ";", " ", "\"", "#", "^#"};
    allStrings(a, g.thorough ? 6 : 4, [&](const std::string &s) { g.put({s}); });
    std::vector<std::string> b = {"a", "b", "foo", ":", "::", ";", " ", "\t", "\"", "#", "^#", "(", ")", "c:/x", "\"a b\"", "x:", "/", "foo.c", "-", "@", "9:", "  ", "\" \"", ",", "a:b", "{", "!"};
    for (int n = 0; n < (g.thorough ? 500000 : 40000) && g.more(); ++n) g.put({g.str(b, 12)});
}
static Reg reg("C17", check, gen);
