#include "world.h"
#include "commandexecutor.h"
#include <QFile>
using namespace NMakeFile;
/* fields: kind of rule ("D" description block, "I" inference rule), the command, the text below it */
static QString ex(QString s, bool plain) { if (!plain) s.replace(QLatin1String("$(X)"), QLatin1String("v w")); return s; }
static bool sp(QChar c) { return c == QLatin1Char(' ') || c == QLatin1Char('\t'); }
struct RefFile { QString name, content; bool keep; };
static QByteArray bytes(const QString &n) { QFile f(n); f.open(QFile::ReadOnly); return f.readAll(); }
static std::string execute(World &w, DescriptionBlock *b, const QList<RefFile> &ref, QString line)
{
    QStringList names;
    foreach (const RefFile &r, ref) {
        foreach (QChar c, r.name) if (QString::fromLatin1("<>\"/|*?:").contains(c)) return "";
        if (r.name.trimmed() != r.name || r.name == QLatin1String(".") || r.name == QLatin1String("..")) return "";
        if (!r.name.isEmpty() && names.contains(r.name)) return "";
        names << r.name;
    }
    QString dir = scratchDir(), old = QDir::currentPath(), temp = dir + QLatin1String("/tmp dir/"); QDir().mkpath(temp); QDir::setCurrent(dir);
    struct Back { QString o, d; ~Back() { QDir::setCurrent(o); QDir(d).removeRecursively(); } } back = {old, temp}; (void)back;
    g_win.temp = temp; CommandExecutor ce(0, ProcessEnvironment()); ce.m_tempPath = temp; ce.m_startUpTickCount = g_win.tick;
    QStringList taken; for (int i = 0; i < 3; ++i) { taken << temp + QLatin1String("all.4711.") + QString::number(i) + QLatin1String(".jom"); writeFile(taken.last(), "someone else's"); }
    QList<Command> before = b->m_commands;
    ce.m_pTarget = b;
    try { ce.createTempFiles(); } catch (Exception &e) { return "unexpected exception " + show(e.message()); }
    std::string bad;
    if (ce.m_tempFiles.count() != ref.count()) bad = std::to_string(ce.m_tempFiles.count()) + " files written instead of " + std::to_string(ref.count());
    QStringList real;
    for (int k = 0; k < ref.count() && bad.empty(); ++k) {
        QString n = ce.m_tempFiles[k].file->fileName();
        if (!ref[k].name.isEmpty() && n != ref[k].name) bad = "the file is named " + show(n) + " instead of " + show(ref[k].name);
        if (ref[k].name.isEmpty() && (!n.startsWith(temp) || taken.contains(n) || real.contains(n))) bad = "the temporary file is named " + show(n);
        if (bad.empty() && (!QFile::exists(n) || QString::fromLatin1(bytes(n)) != ref[k].content)) bad = "the file holds " + show(QString::fromLatin1(bytes(n))) + " instead of " + show(ref[k].content);
        real << n;
        int i = line.indexOf(QLatin1String("<<")); QString put = n; if (n.contains(QLatin1Char(' ')) || n.contains(QLatin1Char('\t'))) put = QLatin1Char('"') + n + QLatin1Char('"');
        if (i < 0) return "malformed case"; line.replace(i, 2, put);
    }
    if (bad.empty() && b->m_commands.first().m_commandLine != line) bad = "the command is run as " + show(b->m_commands.first().m_commandLine) + " instead of " + show(line);
    for (int k = 1; k < before.count() && bad.empty(); ++k) if (b->m_commands[k].m_commandLine != before[k].m_commandLine) bad = "another command changed";
    foreach (const QString &t, taken) if (bad.empty() && bytes(t) != "someone else's") bad = "an existing file was overwritten";
    ce.cleanupTempFiles();
    for (int k = 0; k < ref.count() && bad.empty(); ++k) {
        if (QFile::exists(real[k]) != ref[k].keep) bad = "file " + show(real[k]) + (ref[k].keep ? " is removed although KEEP is given" : " is left although KEEP is not given");
        else if (ref[k].keep && QString::fromLatin1(bytes(real[k])) != ref[k].content) bad = "the kept file changed";
    }
    if (bad.empty() && !ce.m_tempFiles.isEmpty()) bad = "files are left in the list";
    foreach (const QString &n, real) QFile::remove(n);
    (void)w; return bad;
}
static std::string check(const Fields &f)
{
    if (f.size() < 3 || (f[0] != "D" && f[0] != "I")) return "malformed case";
    if (f[1].empty() || f[1].find_first_of("\n#=:!-@\\^") != std::string::npos) return "malformed case";
    for (char c : f[1] + f[2]) if ((unsigned char)c >= 127 || ((unsigned char)c < 32 && c != '\t' && c != '\n')) return "malformed case";
    bool plain = f[0] == "I";
    { QString all = Q(f[1] + f[2]); all.remove(QLatin1String("$(X)")); if (all.contains(QLatin1Char('$'))) return "malformed case"; }
    if (Q(f[1]).trimmed().isEmpty()) return "malformed case";
    // reference: lines, files and the command line
    QString text = Q(f[2]); QStringList lines;
    if (!text.isEmpty() && text.endsWith(QLatin1Char('\n'))) text.chop(1), lines = text.split(QLatin1Char('\n'));
    else if (!text.isEmpty()) return "malformed case";
    foreach (const QString &l, lines) if (l.startsWith(QLatin1Char('!'))) return "malformed case";
    bool closed = true;
    QString cl = ex(Q(f[1]).trimmed(), plain), line; QList<RefFile> ref; int used = 0;
    lines << QLatin1String("\tlast one");
    for (int i = 0; i < cl.length();) {
        if (!(cl[i] == QLatin1Char('<') && i + 1 < cl.length() && cl[i + 1] == QLatin1Char('<'))) { line += cl[i++]; continue; }
        line += QLatin1String("<<"); i += 2;
        RefFile r; r.keep = false;
        if (i < cl.length() && !sp(cl[i])) {
            if (cl[i] == QLatin1Char('"')) {
                int e = cl.indexOf(QLatin1Char('"'), i + 1);
                if (e >= 0) { r.name = cl.mid(i + 1, e - i - 1); i = e + 1; }
            } else while (i < cl.length() && (r.name.isEmpty() || !sp(cl[i]))) r.name += cl[i++];
        }
        ref << r;
    }
    for (int k = 0; k < ref.count(); ++k) {
        bool done = false;
        while (used < lines.count()) {
            QString l = lines[used++];
            if (l.startsWith(QLatin1String("<<"))) { foreach (const QString &w, l.mid(2).split(QLatin1Char(' '))) foreach (const QString &v, w.split(QLatin1Char('\t'))) if (v == QLatin1String("KEEP")) ref[k].keep = true; done = true; break; }
            ref[k].content += ex(l, plain) + QLatin1String("\r\n");
        }
        if (!done) closed = false;
    }
    if (ref.isEmpty()) return "malformed case: no inline file";
    // below the last file only commands
    QStringList more;
    if (closed) for (int k = used; k < lines.count(); ++k) {
        if (lines[k].startsWith(QLatin1Char('#')) || lines[k].trimmed().isEmpty()) continue;
        if (!lines[k].startsWith(QLatin1Char('\t')) || lines[k].contains(QLatin1Char('<')) || QString::fromLatin1("-@!^\\=").contains(lines[k].at(lines[k].length() - 1)) || lines[k].contains(QLatin1Char('=')) || QString::fromLatin1("-@!").contains(lines[k].trimmed().at(0)) || lines[k].contains(QLatin1Char('^')) || lines[k].contains(QLatin1Char('\\')) || lines[k].contains(QLatin1Char('#'))) return "malformed case: text below the files is not judged";
        more << ex(lines[k].trimmed(), plain);
    }
    World w;
    QByteArray mkf = "X = v w\n";
    mkf += plain ? ".SUFFIXES : .c .o\nall :\n.c.o:\n\t" : "all :\n\t";
    mkf += QByteArray(f[1].c_str()) + "\n" + QByteArray(f[2].c_str()) + "\tlast one\n";
    if (!w.parse(mkf)) return "unexpected error " + show(w.error);
    QList<Command> cmds;
    if (plain) { if (w.mk->inferenceRules().count() != 1) return "wrong number of inference rules"; cmds = w.mk->inferenceRules().first()->m_commands; }
    else { DescriptionBlock *b = w.mk->target(QLatin1String("all")); if (!b) return "no target"; cmds = b->m_commands; }
    if (cmds.count() != 1 + more.count()) return std::to_string(cmds.count()) + " commands instead of " + std::to_string(1 + more.count());
    for (int k = 0; k < more.count(); ++k) if (cmds[k + 1].m_commandLine != more[k]) return "command " + show(cmds[k + 1].m_commandLine) + " below the files instead of " + show(more[k]);
    const Command &c = cmds.first();
    if (c.m_commandLine != line) return "command line " + show(c.m_commandLine) + " instead of " + show(line);
    if (c.m_inlineFiles.count() != ref.count()) return std::to_string(c.m_inlineFiles.count()) + " inline files instead of " + std::to_string(ref.count());
    for (int k = 0; k < ref.count(); ++k) {
        const InlineFile *g = c.m_inlineFiles[k];
        if (g->m_filename != ref[k].name) return "name " + show(g->m_filename) + " instead of " + show(ref[k].name);
        if (g->m_content != ref[k].content) return "content " + show(g->m_content) + " instead of " + show(ref[k].content);
        if (g->m_keep != ref[k].keep) return ref[k].keep ? "file is not kept" : "file is kept";
    }
    DescriptionBlock *b = w.mk->target(QLatin1String("all")); if (!b) return "no target";
    if (plain) b->m_commands = cmds;
    std::string e = execute(w, b, ref, line);
    if (plain) b->m_commands.clear();
    return e;
}
static void gen(Gen &g)
{
    std::vector<std::string> a = {"<<", " ", "a", "\"", "<"};
    allStrings(a, 5, [&](const std::string &s) { if (s.find("<<") == std::string::npos) return; g.put({"D", s, "l1\n<<\nl2\n<<KEEP\nl3\n<< KEEP\n"}); g.put({"I", "c " + s, "l1\n<<\nl2\n"}); });
    std::vector<std::string> b = {"<<", " <<", "<<f.txt", " <<f.txt ", "<<\"a b\"", "<<\"q", "$(X)", " ", "\t", "cmd", "\"", "<", "<<$(X)", ">", "<<\"\""};
    std::vector<std::string> l = {"one\n", "  two\n", "\tthree\n", "$(X)\n", "a$(X)b\n", "\n", "<<\n", "<<\n", "<<\n", "<<KEEP\n", "<< KEEP\n", "<<NOKEEP\n", "<<\tKEEP\n", "<<UNICODE KEEP\n", "<<KEEPX\n", "<<KEEP UNICODE\n", " <<\n", "<\n", "x = 1\n", "# no comment\n", "a \\\n", "a^\n", "KEEP\n", "\tcc x\n", "x : y\n", "< <\n", "tail <<\n"};
    for (int n = 0; n < (g.thorough ? 200000 : 20000) && g.more(); ++n) {
        std::string c, t; int k = 1 + g.r(5), m = g.r(9);
        if (g.chance(60)) c = "cmd ";
        for (int i = 0; i < k; ++i) c += b[g.r(b.size())];
        for (int i = 0; i < m; ++i) t += l[g.r(l.size())];
        g.put({g.chance(70) ? "D" : "I", c, t});
    }
}
static Reg reg("C22", check, gen);
