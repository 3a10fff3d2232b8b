#include "harness.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <exception>
#include "exception.h"
std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
void allStrings(const std::vector<std::string> &pieces, int n, const std::function<void(const std::string &)> &f)
{
    std::vector<int> idx;
    for (int len = 0; len <= n; ++len) {
        idx.assign(len, 0);
        for (;;) {
            std::string s;
            for (int i : idx) s += pieces[i];
            f(s);
            int k = len - 1;
            while (k >= 0 && ++idx[k] == (int)pieces.size()) idx[k--] = 0;
            if (k < 0) break;
        }
    }
}
static QString g_scratch;
QString scratchDir() { return g_scratch; }
void writeFile(const QString &path, const QByteArray &data)
{
    QFile f(path);
    if (!f.open(QFile::WriteOnly)) { fprintf(stderr, "cannot write %s\n", qPrintable(path)); _exit(99); }
    f.write(data);
}
struct Shared { volatile long cases; volatile int state; volatile unsigned len; volatile unsigned msglen; char msg[8192]; char buf[1 << 20]; };
static Shared *sh;
static std::string enc(const Fields &f)
{
    std::string o;
    for (auto &s : f) {
        for (unsigned char c : s) { char b[8]; if (c == '\\') o += "\\\\"; else if (c >= 32 && c < 127) o += char(c); else { snprintf(b, 8, "\\x%02x", c); o += b; } }
        o += '\n';
    }
    return o;
}
static Fields dec(const std::string &t)
{
    Fields f; std::string cur;
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '\n') { f.push_back(cur); cur.clear(); }
        else if (t[i] == '\\' && i + 1 < t.size()) {
            if (t[i + 1] == '\\') { cur += '\\'; ++i; }
            else { cur += char(strtol(t.substr(i + 2, 2).c_str(), 0, 16)); i += 3; }
        } else cur += t[i];
    }
    return f;
}
static std::string runCheck(const Prop &p, const Fields &f)
{
    try { return p.check(f); }
    catch (NMakeFile::Exception &e) { return "unexpected jom exception: " + U(e.message()); }
    catch (std::exception &e) { return std::string("unexpected C++ exception: ") + e.what(); }
}
static void setCase(const Fields &f)
{
    std::string e = enc(f);
    unsigned n = unsigned(std::min(e.size(), sizeof(sh->buf) - 1));
    memcpy(sh->buf, e.data(), n); sh->len = n;
    sh->cases = sh->cases + 1;
}
static void quiet() { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); if (!getenv("HARNESS_STDERR")) dup2(fd, 2); }
// runs f in a child; returns "" or a failure message
static std::string inChild(const std::function<void()> &f, double limit, double total)
{
    sh->state = 0; sh->msglen = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { quiet(); f(); _exit(0); }
    double start = now(), lastChange = now(); long last = -1;
    for (;;) {
        int st; pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) {
            if (sh->state == 2) return std::string((const char *)sh->msg, sh->msglen);
            if (WIFSIGNALED(st)) return "crash (signal " + std::to_string(WTERMSIG(st)) + " " + strsignal(WTERMSIG(st)) + ")";
            if (WEXITSTATUS(st)) return "abnormal end (exit " + std::to_string(WEXITSTATUS(st)) + ": sanitizer report or abort)";
            return "";
        }
        if (sh->cases != last) { last = sh->cases; lastChange = now(); }
        if (now() - lastChange > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return "does not end (no answer within " + std::to_string(int(limit)) + " s)"; }
        if (total > 0 && now() - start > total) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return ""; }
        usleep(500);
    }
}
static void fail(const std::string &m)
{
    unsigned n = unsigned(std::min(m.size(), sizeof(sh->msg) - 1));
    memcpy((void *)sh->msg, m.data(), n); sh->msglen = n; sh->state = 2; _exit(1);
}
static std::string checkOne(const Prop &p, const Fields &f)
{
    return inChild([&] { setCase(f); std::string m = runCheck(p, f); if (!m.empty()) fail(m); }, 10, 0);
}
int main(int argc, char **argv)
{
    QString id, replay, out; quint64 seed = 1; double secs = 20; bool thorough = false;
    for (int i = 1; i < argc; ++i) {
        QString a = QString::fromLocal8Bit(argv[i]);
        if (a == QLatin1String("--seed")) seed = strtoull(argv[++i], 0, 10);
        else if (a == QLatin1String("--secs")) secs = atof(argv[++i]);
        else if (a == QLatin1String("--replay")) replay = QString::fromLocal8Bit(argv[++i]);
        else if (a == QLatin1String("--out")) out = QString::fromLocal8Bit(argv[++i]);
        else if (a == QLatin1String("--thorough")) thorough = true;
        else id = a;
    }
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char tmpl[] = "/tmp/jomverif-XXXXXX";
    if (!mkdtemp(tmpl)) return 99;
    g_scratch = QString::fromLatin1(tmpl);
    if (chdir(tmpl)) return 99;
    int rc = 0;
    std::string report;
    if (!replay.isEmpty()) {
        QFile f(replay);
        if (!f.open(QFile::ReadOnly)) return 99;
        QByteArray t = f.readAll();
        int k = t.indexOf("--- input ---\n");
        t = t.mid(k + 14);
        int e = t.indexOf("--- end ---");
        if (e >= 0) t = t.left(e);
        for (auto &p : props()) if (id == QLatin1String(p.id)) {
            std::string m = checkOne(p, dec(std::string(t.constData(), t.size())));
            printf("%s\n", m.empty() ? "holds" : m.c_str());
            rc = m.empty() ? 0 : 1;
        }
    } else {
        bool found = false;
        for (auto &p : props()) if (id == QLatin1String(p.id)) {
            found = true;
            double t0 = now();
            std::string m = inChild([&] {
                Gen g; g.rng.seed(seed * 7919 + 17); g.thorough = thorough;
                g.more = [&] { return now() - t0 < secs; };
                g.put = [&](const Fields &f) { setCase(f); std::string m = runCheck(p, f); if (!m.empty() && m.compare(0, 9, "malformed") != 0) fail(m); };
                p.gen(g);
            }, 15, secs + 60);
            long cases = sh->cases;
            if (!m.empty()) {
                rc = 1;
                std::string in((const char *)sh->buf, sh->len);
                Fields best = dec(in);
                // shrink
                double s0 = now();
                std::string again = checkOne(p, best);
                std::string bestMsg = again.empty() ? m : again;
                if (!again.empty()) {
                    bool progress = true;
                    while (progress && now() - s0 < 15) {
                        progress = false;
                        for (size_t i = 0; i < best.size() && now() - s0 < 15; ++i)
                            for (size_t len = std::max<size_t>(1, best[i].size() / 2); len >= 1 && now() - s0 < 15; len /= 2) {
                                for (size_t j = 0; j + len <= best[i].size() && now() - s0 < 15;) {
                                    Fields c = best; c[i].erase(j, len);
                                    std::string mm = checkOne(p, c);
                                    if (!mm.empty() && mm.compare(0, 9, "malformed") != 0) { best = c; bestMsg = mm; progress = true; } else ++j;
                                }
                            }
                    }
                }
                report = "property " + std::string(p.id) + "\nwhat: " + bestMsg + "\nafter cases: " + std::to_string(cases) + "\n--- input ---\n" + enc(best) + "--- end ---\n";
                if (!out.isEmpty()) { QFile f(out); if (f.open(QFile::WriteOnly)) f.write(QByteArray::fromStdString(report)); }
                printf("FAIL %s\n%s", p.id, report.c_str());
            } else printf("OK %s cases=%ld wall=%.1f\n", p.id, cases, now() - t0);
        }
        if (!found) { printf("no generator for %s\n", qPrintable(id)); rc = 98; }
    }
    QDir("/").setPath("/");
    if (chdir("/")) {}
    QDir(g_scratch).removeRecursively();
    return rc;
}
