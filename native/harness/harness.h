/* Replay harness: runs the real jom code (compiled from /repo's working tree) against executable reference
 * specifications, on generated inputs or on one recorded input. */
#ifndef HARNESS_H
#define HARNESS_H
#include <QtCore>
#include <functional>
#include <random>
#include <string>
#include <vector>
#include "winmock.h"
typedef std::vector<std::string> Fields;
struct Gen {
    std::mt19937_64 rng;
    bool thorough = false;
    std::function<void(const Fields &)> put;      // run the check on this case
    std::function<bool()> more;                    // time left?
    unsigned r(unsigned n) { return n ? unsigned(rng() % n) : 0; }
    bool chance(unsigned pct) { return r(100) < pct; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[r(unsigned(v.size()))]; }
    std::string pickc(const std::string &s) { return std::string(1, s[r(unsigned(s.size()))]); }
    std::string str(const std::vector<std::string> &pieces, unsigned maxn) { std::string o; for (unsigned n = r(maxn + 1); n--;) o += pick(pieces); return o; }
};
// returns "" when the property holds on the case, else what is wrong
typedef std::string (*CheckFn)(const Fields &);
typedef void (*GenFn)(Gen &);
struct Prop { const char *id; CheckFn check; GenFn gen; };
std::vector<Prop> &props();
struct Reg { Reg(const char *id, CheckFn c, GenFn g) { props().push_back({id, c, g}); } };
inline QString Q(const std::string &s) { return QString::fromUtf8(s.data(), int(s.size())); }
inline std::string U(const QString &s) { QByteArray b = s.toUtf8(); return std::string(b.constData(), b.size()); }
inline std::string show(const QString &s) { std::string o = "\""; for (QChar c : s) { ushort u = c.unicode(); char b[12]; if (u == '"' || u == '\\') { o += '\\'; o += char(u); } else if (u >= 32 && u < 127) o += char(u); else { snprintf(b, 12, "\\x{%x}", u); o += b; } } return o + "\""; }
inline std::string show(const QStringList &l) { std::string o = "["; for (int i = 0; i < l.size(); ++i) { if (i) o += ", "; o += show(l[i]); } return o + "]"; }
// all strings over an alphabet of pieces, up to n pieces
void allStrings(const std::vector<std::string> &pieces, int n, const std::function<void(const std::string &)> &f);
QString scratchDir();          // fresh private directory of this run
void writeFile(const QString &path, const QByteArray &data);
#endif
