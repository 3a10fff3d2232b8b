/* A whole build by the real TargetExecutor, CommandExecutor, DependencyGraph and JobClient. Only the processes and the
 * token semaphore are replaced; the schedule (which process ends next, when a token arrives) is part of the input. */
#ifndef SIM_H
#define SIM_H
#include "world.h"
#include "targetexecutor.h"
#include "commandexecutor.h"
#include "jobclient.h"
#include "jobserver.h"
#include "dependencygraph.h"
#include "fastfileinfo.h"
#include "jomprocess.h"
#include <QSystemSemaphore>
#include <unistd.h>
#include <map>
#include <set>
/* 0: jobs and options ("3KN": three jobs, K = /K, N = dry run, L = tokens are used by others too, T = time stamps count)   1: requested targets   2: schedule
 * (a..d = the first .. fourth running process ends, g = a token arrives, - = wait)   3..: "name/commands dependent dependent ..." (with T: "name@time/commands", no time: no file;
 * the command o writes the file of its target, q does not)
 * commands, a letter each: see cmdLine */
namespace sim {
enum { SLOTS = 1, RESULT = 2, ORDER = 4, CONSOLE = 8, GRAPH = 16, TIMES = 32 };
static inline quint64 stamp(long t) { return quint64(t) * 0x60000001u; }   // later times may have smaller low words
static inline QString fileKey(const std::string &n) { QString k = QFileInfo(Q(n)).absoluteFilePath(); if (!g_win.cwd.isEmpty() && k.startsWith(g_win.cwd)) k.remove(0, g_win.cwd.length()); return k.toLower(); }
struct Cmd { std::string text; bool starts; int code; bool crash; bool fails; bool direct; };
static inline bool cmdLine(char c, const std::string &who, int idx, Cmd &o)
{
    std::string base = "run " + who + " " + std::to_string(idx);
    o = Cmd{base + " x", true, 0, false, false, true};
    switch (c) {
    case 'o': return true;
    case 'q': o.text = "@" + base; return true;
    case '1': o.code = 1; o.fails = true; return true;
    case '9': o.code = 99; o.fails = true; return true;
    case 'x': o.crash = true; o.fails = true; return true;
    case 'i': o.text = "-" + base; o.code = 7; return true;
    case 'X': o.text = "-" + base; o.crash = true; return true;
    case 'm': o.text = "-3 " + base; o.code = 3; return true;
    case 'M': o.text = "-3 " + base; o.code = 4; o.fails = true; return true;
    case 'y': o.text = "-1 " + base; o.crash = true; o.fails = true; return true;
    case 'Y': o.text = "-2 " + base; o.crash = true; return true;
    case 'N': o.text = "-5 " + base; o.code = -1; o.fails = true; return true;
    case 'n': o.text = base + " nodirect"; o.direct = false; return true;
    case 'e': o.text = base + " nodirect"; o.direct = false; o.code = 3; o.fails = true; return true;
    case 'p': o.text = base + " | more"; o.direct = false; return true;
    case 'r': o.text = "rem nothing"; o.starts = false; return true;
    case 's': o.text = "set JOMX=1"; o.starts = false; return true;
    case 'C': o.text = "cd /"; o.starts = false; return true;
    case 'c': o.text = "cd /nonexistent/zz"; o.starts = false; o.fails = true; return true;
    case 'D': o.text = "-cd /nonexistent/zz"; o.starts = false; return true;
    case 'I': o.text = base + " <</nonexistent/zz"; o.starts = false; return true;
    }
    return false;
}
struct Rule { long time = 0; std::string name; std::string cmds; std::vector<std::string> deps; };
static inline std::vector<std::string> words(const std::string &s) { std::vector<std::string> v; std::string c; for (char ch : s + " ") if (ch == ' ') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; return v; }
struct Run {
    int mask; std::map<std::string, Rule> rules; std::vector<std::string> order, req; int jobs = 1; bool keep = false, dry = false, times = false, others = false; std::string sched; long clock = 1000;
    std::string bad; void fail(int m, const std::string &s) { if ((mask & m) && bad.empty()) bad = s; }
    // state of the simulated build
    NMakeFile::TargetExecutor *te = 0; size_t pos = 0; long ticks = 0, acts = 0; bool done = false; int granted = 0, outside = 0; int codeSeen = -1; int finishes = 0;
    struct Now { int next = 0; bool running = false, failed = false, over = false; };
    std::vector<std::map<std::string, int>> allStarts, allReports; bool aborted = false;
    void sync() { size_t at = req.size() - 1 - size_t(te->m_pendingTargets.size()); if (te->m_bAborted || at <= reqAt) return; for (; reqAt < at; ++reqAt) { allStarts.push_back(starts); allReports.push_back(reports); starts.clear(); reports.clear(); } cur.clear(); finishedIn.clear(); failedIn.clear(); }
    std::map<std::string, Now> cur; std::map<std::string, int> starts, reports; std::set<std::string> failedEver; bool anyFailed = false, threw = false; size_t reqAt = 0;
    std::map<NMakeFile::Process *, std::pair<std::string, int>> what; unsigned gen = 0; bool waiting = false; int tail = 0;
    void need(const std::string &t, std::set<std::string> &s) { if (!s.insert(t).second) return; for (auto &d : rules[t].deps) need(d, s); }
    // skip the commands that start no process
    void advance(const std::string &t)
    {
        Now &n = cur[t]; Rule &r = rules[t]; Cmd c;
        while (!n.over && n.next < int(r.cmds.size())) { cmdLine(r.cmds[n.next], t, n.next, c); if (c.starts && !dry) return; if (c.fails && !dry) { n.failed = n.over = true; failedNow(t); return; } n.next++; }
        n.over = true;
    }
    void failedNow(const std::string &t) { anyFailed = true; failedEver.insert(t); }
    int running() { int n = 0; for (auto p : NMakeFile::Process::all) if (p->m_state == NMakeFile::Process::Running) n++; return n; }
    int direct() { int n = 0; for (auto p : te->m_processes) if (!p->isBufferedOutputSet()) n++; return n; }
    int tokens() { QSystemSemaphore::State &s = QSystemSemaphore::state(); std::lock_guard<std::mutex> l(s.m); return s.acquired - s.released; }
    int onStart(NMakeFile::Process *p, const QString &line)
    {
        sync(); std::string l = U(line); bool shell = false; size_t k = l.find("run ");
        if (k == std::string::npos) { fail(ORDER, "an unknown command is started: " + l); return 0; }
        shell = k > 0; auto w = words(l.substr(k)); if (w.size() < 3) { fail(ORDER, "an unknown command is started: " + l); return 0; }
        std::string t = w[1]; int idx = atoi(w[2].c_str());
        if (!rules.count(t) || idx < 0 || idx >= int(rules[t].cmds.size())) { fail(ORDER, "an unknown command is started: " + l); return 0; }
        Cmd c; cmdLine(rules[t].cmds[idx], t, idx, c);
        if (dry) fail(ORDER, "a dry run starts " + l);
        bool nodirect = l.find(" nodirect") != std::string::npos;
        if (!shell && nodirect) { return 1; }
        // the executor that owns the process
        NMakeFile::CommandExecutor *ce = 0; for (auto e : te->m_processes) if (&e->m_process == p) ce = e;
        if (!ce) { fail(ORDER, "started by an unknown executor"); return 0; }
        if (!ce->target() || U(ce->target()->targetName()) != t) fail(ORDER, t + " is not the target of its executor");
        Now &n = cur[t];
        bool fresh = n.over || (n.next == 0 && !n.running);
        if (n.over) n = Now();
        if (fresh || firstProc(t) == idx) {
            if (n.running) fail(ORDER, "command " + std::to_string(idx) + " of " + t + " is started before the previous one has ended");
            if (idx != firstProc(t)) fail(ORDER, t + " starts with command " + std::to_string(idx));
            n = Now(); starts[t]++; n.next = idx;
            if (anyFailed && !keep) fail(RESULT, t + " is started after a command has failed");
            std::set<std::string> nd; need(t, nd); nd.erase(t);
            for (auto &d : nd) { if (keep && failedIn.count(d)) fail(RESULT, t + " is started although " + d + " has failed"); if (cur.count(d) && (cur[d].running || (!cur[d].over && starts[d]))) fail(GRAPH, t + " is started before " + d + " has finished"); if (hasProc(d) && !finishedIn.count(d) && !failedIn.count(d)) fail(GRAPH, t + " is started before " + d + " was built"); }
        } else {
            if (n.running) fail(ORDER, "command " + std::to_string(idx) + " of " + t + " is started before the previous one has ended");
            if (n.failed) fail(ORDER, "command " + std::to_string(idx) + " of " + t + " is started after a failure");
            if (idx != n.next) fail(ORDER, "command " + std::to_string(idx) + " of " + t + " is started, expected " + std::to_string(n.next));
        }
        n.running = true; n.next = idx; what[p] = {t, idx};
        int k2 = running() + (p->m_state == NMakeFile::Process::Running ? 0 : 1);
        if (k2 > jobs) fail(SLOTS, std::to_string(k2) + " processes with " + std::to_string(jobs) + " jobs");
        if (k2 - 1 > tokens()) fail(SLOTS, std::to_string(k2) + " processes run with " + std::to_string(tokens()) + " tokens");
        int dir = p->m_bufferedOutput ? 0 : 1; for (auto q : NMakeFile::Process::all) if (q != p && q->m_state == NMakeFile::Process::Running && !q->m_bufferedOutput) dir++;
        if (dir > 1) fail(CONSOLE, std::to_string(dir) + " running targets write directly to the console");
        return 0;
    }
    std::set<std::string> finishedIn, failedIn;
    bool hasProc(const std::string &t) { return firstProc(t) >= 0; }
    int firstProc(const std::string &t) { Cmd c; if (dry) return -1; for (size_t i = 0; i < rules[t].cmds.size(); ++i) { cmdLine(rules[t].cmds[i], t, int(i), c); if (c.starts) return int(i); if (c.fails) return -1; } return -1; }
    void end(NMakeFile::Process *p)
    {
        auto w = what[p]; Cmd c; cmdLine(rules[w.first].cmds[w.second], w.first, w.second, c);
        Now &n = cur[w.first]; n.running = false; n.next = w.second + 1;
        if (times && rules[w.first].cmds[w.second] == 'o') { clock++; g_win.files[fileKey(w.first)] = stamp(clock); g_win.now = stamp(clock + 1); }
        if (c.fails) { n.failed = n.over = true; failedNow(w.first); } else advance(w.first);
        p->finish(c.code, c.crash);
        QSystemSemaphore::State &s = QSystemSemaphore::state(); { std::lock_guard<std::mutex> l(s.m); if (s.released > s.acquired + (te->m_jobClient->isAcquiring() ? 1 : 0)) fail(SLOTS, "more tokens returned than taken"); }
    }
    void onChild(NMakeFile::CommandExecutor *e, bool failed)
    {
        sync(); std::string t = U(e->target()->targetName());
        reports[t]++;
        if (failed) failedIn.insert(t); else finishedIn.insert(t);
        if (!hasProc(t) || dry) { bool f = false; Cmd c; if (!dry) for (size_t i = 0; i < rules[t].cmds.size(); ++i) { cmdLine(rules[t].cmds[i], t, int(i), c); if (c.fails) { f = true; break; } } starts[t]++; if (anyFailed && !keep) fail(RESULT, t + " is started after a command has failed"); if (f) failedNow(t); if (f != failed) fail(ORDER, t + std::string(failed ? " is reported as failed" : " is reported as successful")); if (keep) { std::set<std::string> nd; need(t, nd); nd.erase(t); for (auto &d : nd) if (failedIn.count(d)) fail(RESULT, t + " is started although " + d + " has failed"); } return; }
        Now &n = cur[t];
        if (n.running) fail(ORDER, t + " is reported as finished while a command of it runs");
        if (!n.over) fail(ORDER, t + " is reported as finished before its last command");
        if (failed != n.failed) fail(ORDER, t + std::string(failed ? " is reported as failed" : " is reported as successful"));
        if (reports[t] > starts[t]) fail(ORDER, t + " is reported as finished twice");
    }
    void onDone(int code)
    {
        finishes++; if (codeSeen < 0 || code) codeSeen = code;
        if (running()) fail(SLOTS, "the build ends while a process runs");
        if (te->m_jobClient) { if (te->m_jobClient->isAcquiring()) fail(SLOTS, "the build ends while a token is on its way"); else if (tokens() != 0) fail(SLOTS, tokens() > 0 ? "the build ends with a token in hand" : "the build ends with more tokens returned than taken"); }
        done = true;
    }
    bool grant()
    {
        if (!te->m_jobClient || !te->m_jobClient->isAcquiring()) return false;
        QSystemSemaphore::State &s = QSystemSemaphore::state();
        for (int i = 0; i < 50000; ++i) { { std::lock_guard<std::mutex> l(s.m); if (s.waiting > s.grants) break; if (s.acquired + s.grants > given) break; } usleep(50); }
        if (!QSystemSemaphore::grant()) return false;
        given++;
        for (int i = 0; i < 50000; ++i) { { std::lock_guard<std::mutex> l(s.m); if (s.grants == 0) break; } usleep(20); }
        return true;
    }
    int given = 0, tailc = 0;
    void tick(unsigned g);
};
inline std::string check(const Fields &f, int mask);
static Run *g_run; static unsigned g_gen;
inline void later(unsigned g) { QTimer::singleShot(0, [g] { if (g_run && g == g_gen) g_run->tick(g); }); }
inline void Run::tick(unsigned g)
{
    later(g);
    if (done) { if (++tail > 6) QCoreApplication::exit(0); if (!(running() == 0)) tail = 0; if (tail > 0) return; }
    if (++ticks % 3) return;
    if (!bad.empty() || ++acts > 3000) { if (bad.empty()) fail(RESULT | SLOTS, "the build does not end"); QCoreApplication::exit(1); done = true; return; }
    if (direct() != 1 && te->m_processes.size()) fail(CONSOLE, std::to_string(direct()) + " executors write directly to the console");
    char c = pos < sched.size() ? sched[pos++] : (++tailc % 2 ? 'g' : 'a');
    { QSystemSemaphore::State &s = QSystemSemaphore::state(); std::lock_guard<std::mutex> l(s.m); if (c == 't' && s.value > 0) { s.value--; outside++; } if (outside && (c == 'u' || tailc)) { s.value++; outside--; } }
    if (c == 'g') { grant(); return; }
    std::vector<NMakeFile::Process *> r; for (auto p : NMakeFile::Process::all) if (p->m_state == NMakeFile::Process::Running) r.push_back(p);
    if (c >= 'a' && c <= 'd' && !r.empty()) end(r[size_t(c - 'a') % r.size()]);
}

inline std::string check(const Fields &f, int mask)
{
    const char *no = "malformed case";
    if (f.size() < 4 || f[0].empty() || f[0][0] < '1' || f[0][0] > '4') return no;
    static Run *last = 0; delete last; Run &R = *(last = new Run); R.mask = mask; R.jobs = f[0][0] - '0';
    for (size_t i = 1; i < f[0].size(); ++i) if (f[0][i] == 'K') R.keep = true; else if (f[0][i] == 'N') R.dry = true; else if (f[0][i] == 'T') R.times = true; else return no;
    for (char c : f[2]) if (!strchr("abcdg-tu", c)) return no;
    R.sched = f[2]; R.req = words(f[1]); if (R.req.empty()) return no;
    for (size_t i = 3; i < f.size(); ++i) {
        auto w = words(f[i]); if (w.empty()) return no; size_t a = w[0].find('/'); if (a == std::string::npos) return no;
        Rule r; r.name = w[0].substr(0, a); r.cmds = w[0].substr(a + 1); size_t at = r.name.find('@'); if (at != std::string::npos) { if (!R.times) return no; r.time = atol(r.name.c_str() + at + 1); if (r.time < 1 || r.time > 900) return no; r.name.resize(at); } if (R.times && r.cmds.find_first_not_of("oq") != std::string::npos) return no; if (r.name.size() < 2) return no; for (char c : r.name) if (!(c >= 'a' && c <= 'z') && !isdigit((unsigned char)c)) return no;
        Cmd c; for (size_t k = 0; k < r.cmds.size(); ++k) if (!cmdLine(r.cmds[k], r.name, int(k), c)) return no;
        for (size_t j = 1; j < w.size(); ++j) { for (auto &d : r.deps) if (d == w[j]) return no; r.deps.push_back(w[j]); }
        if (R.rules.count(r.name)) return no; R.rules[r.name] = r; R.order.push_back(r.name);
    }
    for (auto &kv : R.rules) for (auto &d : kv.second.deps) if (!R.rules.count(d)) return no;
    for (auto &t : R.req) if (!R.rules.count(t)) return no;
    std::map<std::string, int> st; bool cyc = false; std::function<void(const std::string &)> dfs = [&](const std::string &t) { if (st[t] == 1) { cyc = true; return; } if (st[t]) return; st[t] = 1; for (auto &d : R.rules[t].deps) dfs(d); st[t] = 2; };
    for (auto &kv : R.rules) dfs(kv.first); if (cyc) return no;
    static int argc = 1; static char arg0[] = "jom"; static char *argv[] = {arg0, 0}; static QCoreApplication *app = new QCoreApplication(argc, argv); (void)app;
    g_win.files.clear(); g_win.now = 1000; g_win.env.clear(); g_win.temp = scratchDir() + QLatin1Char('/');
    for (auto &n : R.order) { NMakeFile::FastFileInfo::clearCacheForFile(Q(n)); if (R.rules[n].time) g_win.files[fileKey(n)] = stamp(R.rules[n].time); } if (R.times) g_win.now = stamp(R.clock + 1);
    if (R.times && (R.keep || R.dry || R.req.size() != 1)) return no;
    QByteArray text; bool hasI = false;
    for (auto &n : R.order) { Rule &r = R.rules[n]; text += n.c_str(); text += ":"; for (auto &d : r.deps) { text += " "; text += d.c_str(); } text += "\n"; for (size_t k = 0; k < r.cmds.size(); ++k) { Cmd c; cmdLine(r.cmds[k], n, int(k), c); text += "\t"; text += c.text.c_str(); text += "\n"; if (r.cmds[k] == 'I') { hasI = true; text += "text\n<<KEEP\n"; } } }
    World w; QStringList targets; for (auto &t : R.req) targets << Q(t);
    w.parse(text, targets); if (w.failed) return "unexpected error: " + show(w.error);
    w.opt.buildAllTargets = !R.times; w.opt.buildUnrelatedTargetsOnError = R.keep; w.opt.dryRun = R.dry;
    NMakeFile::g_options.maxNumberOfJobs = R.jobs;
    QSystemSemaphore::reset(0);
    NMakeFile::ProcessEnvironment env; NMakeFile::JobServer server(&env);
    if (!server.start(R.jobs)) return "the job server does not start";
    if ((mask & SLOTS) && QSystemSemaphore::state().value != R.jobs - 1) return "the job server has " + std::to_string(QSystemSemaphore::state().value) + " tokens for " + std::to_string(R.jobs) + " jobs";
    if ((mask & SLOTS) && env.value(QLatin1String("_JOMJOBCOUNT_")) != QString::number(R.jobs)) return "the job count for sub processes is " + U(env.value(QLatin1String("_JOMJOBCOUNT_")));
    if ((mask & SLOTS) && (env.value(QLatin1String("_JOMSRVKEY_")).isEmpty() || env.value(QLatin1String("_JOMSRVKEY_")) != QSystemSemaphore::state().createdKey)) return "sub processes are not told the key of the job server";
    std::string err;
    {
        NMakeFile::TargetExecutor *te = new NMakeFile::TargetExecutor(env); R.te = te;
        NMakeFile::Process::onStart = [&R](NMakeFile::Process *p, const QString &l) { return R.onStart(p, l); };
        NMakeFile::Process::onWait = [&R](NMakeFile::Process *p) { R.end(p); };
        NMakeFile::Process::onBuffered = nullptr;
        for (auto e : te->m_processes) { QObject::connect(e, &NMakeFile::CommandExecutor::finished, [&R](NMakeFile::CommandExecutor *x, bool failed) { R.onChild(x, failed); }); }
        // the harness sees the report of a target before the executor acts on it
        for (auto e : te->m_processes) { QObject::disconnect(e, SIGNAL(finished(CommandExecutor*, bool)), te, SLOT(onChildFinished(CommandExecutor*, bool))); QObject::connect(e, SIGNAL(finished(CommandExecutor*, bool)), te, SLOT(onChildFinished(CommandExecutor*, bool))); }
        QObject::connect(te, &NMakeFile::TargetExecutor::finished, [&R](int code) { R.onDone(code); });
        try {
            te->apply(w.mk, targets);
            g_run = &R; ++g_gen; later(g_gen);
            QCoreApplication::exec();
        } catch (NMakeFile::Exception &e) { err = "unexpected exception: " + U(e.message()); }
        g_run = 0; ++g_gen;
        { QSystemSemaphore::State &s = QSystemSemaphore::state(); std::lock_guard<std::mutex> l(s.m); s.shutdown = true; s.cv.notify_all(); }
        R.sync();
        delete te;
        QCoreApplication::sendPostedEvents(); QCoreApplication::processEvents();
        NMakeFile::Process::onStart = nullptr; NMakeFile::Process::onWait = nullptr;
    }
    if ((mask & SLOTS) && QSystemSemaphore::state().foreign) return "a job client asks another semaphore for tokens";
    if (!err.empty()) return err;
    if (!R.bad.empty()) return R.bad;
    if (R.times) {
        if (!(mask & TIMES)) return "";
        if (R.codeSeen != 0) return "no command failed, but the exit code is " + std::to_string(R.codeSeen);
        std::map<std::string, long> ts; std::map<std::string, bool> built; const long later = 1000000; std::string res;
        std::function<void(const std::string &)> eval = [&](const std::string &t) {
            if (ts.count(t)) return; Rule &r = R.rules[t]; bool up = r.time != 0; long latest = 0;
            for (auto &d : r.deps) { eval(d); Rule &q = R.rules[d]; long x = ts[d] ? ts[d] : later; if (!q.time && !q.cmds.empty()) x = later; if (x > r.time) up = false; latest = std::max(latest, x); }
            built[t] = !up && !r.cmds.empty();
            if (built[t] && r.cmds.find('o') != std::string::npos) ts[t] = later; else ts[t] = r.time ? r.time : latest;
            if (R.starts[t] != (built[t] ? 1 : 0) && res.empty()) res = t + (built[t] ? " is out of date but was not built" : " is up to date but was built");
        };
        eval(R.req[0]);
        return res;
    }
    R.allStarts.push_back(R.starts); R.allReports.push_back(R.reports);
    if ((mask & RESULT) && R.anyFailed && R.codeSeen == 0) return "a command failed, but the exit code is 0";
    if (hasI) return "";
    if ((mask & RESULT) && !R.anyFailed && R.codeSeen != 0) return "no command failed, but the exit code is " + std::to_string(R.codeSeen);
    auto failing = [&](const std::string &t) { Cmd c; if (R.dry) return false; for (size_t i = 0; i < R.rules[t].cmds.size(); ++i) { cmdLine(R.rules[t].cmds[i], t, int(i), c); if (c.fails) return true; } return false; };
    bool whole = R.keep || !R.anyFailed;
    if (whole && R.allStarts.size() != R.req.size()) { if (mask & RESULT) return "only " + std::to_string(R.allStarts.size()) + " of the requested targets were looked at"; return ""; }
    for (size_t i = 0; i < R.allStarts.size(); ++i) {
        std::set<std::string> nd; R.need(R.req[i], nd);
        for (auto &kv : R.rules) {
            const std::string &x = kv.first; bool doomed = false; std::set<std::string> dd; R.need(x, dd); dd.erase(x); for (auto &d : dd) if (failing(d)) doomed = true;
            int want = nd.count(x) && !doomed && !kv.second.cmds.empty() ? 1 : 0, got = R.allStarts[i][x], rep = R.allReports[i][x];
            if (got > want) { if (mask & (RESULT | GRAPH)) return x + " was built " + std::to_string(got) + " times"; }
            if (got < want && whole && (mask & RESULT)) return x + " was not built";
            if (rep != got && (mask & ORDER)) return x + " was reported " + std::to_string(rep) + " times but started " + std::to_string(got) + " times";
        }
    }
    return "";
}
inline void genTimes(Gen &g)
{
    auto nm = [](int i) { return std::string(2, char('a' + i)); };
    for (int n = 0; n < (g.thorough ? 40000 : 1500) && g.more(); ++n) {
        int k = 2 + g.r(5); Fields f = {std::string(1, char('1' + g.r(3))) + "T", "aa", ""};
        for (int i = g.r(3 * k); i--;) f[2] += g.pick(std::vector<std::string>{"g", "g", "a", "a", "b", "c", "-"});
        for (int i = 0; i < k; ++i) { std::string l = nm(i); if (g.chance(80)) l += "@" + std::to_string(1 + g.r(6)); l += "/"; if (!g.chance(15)) l += g.chance(80) ? "o" : "q"; for (int j = i + 1; j < k; ++j) if (g.chance(45)) l += " " + nm(j); f.push_back(l); }
        f.insert(f.begin(), "SIM"); g.put(f);
    }
}
inline void gen(Gen &g, const std::string &cmds)
{
    auto nm = [](int i) { return std::string(2, char('a' + i)); };
    std::vector<std::string> kinds = {"o", "1"};
    static const char *sch[] = {"", "ggg", "gagbgc", "bgbgb", "g-g-aaa", "gggbca"};
    for (unsigned m = 0; m < 64; ++m) for (int v = 0; v < 10 && g.more(); ++v) {
        Fields f = {std::string(1, char('1' + (m + v) % 3)) + (v & 1 ? "K" : ""), "aa", sch[(m * 7 + v) % 6]}; unsigned b = 0;
        for (int i = 0; i < 4; ++i) { std::string l = nm(i) + "/" + (i && v >= 2 && int(m + v) % 4 == i ? g.pickc(cmds) : g.chance(50) ? "oo" : "o"); for (int j = i + 1; j < 4; ++j, ++b) if (m >> b & 1) l += " " + nm(j); f.push_back(l); }
        g.put(f);
    }
    for (int n = 0; n < (g.thorough ? 200000 : 20000) && g.more(); ++n) {
        int k = 2 + g.r(8); Fields f = {std::string(1, char('1' + g.r(4))) + (g.chance(50) ? "K" : "") + (g.chance(4) ? "N" : ""), "t0", ""};
        for (int i = 1; i < k; ++i) if (g.chance(10)) f[1] += " t" + std::to_string(i);
        for (int i = g.r(4 * k); i--;) f[2] += g.pick(std::vector<std::string>{"g", "g", "g", "a", "a", "b", "c", "d", "-", "t", "u"});
        int dens = 10 + g.r(60), fl = g.pick(std::vector<int>{0, 5, 15, 40}); std::vector<std::string> rules;
        for (int i = 0; i < k; ++i) { std::string l = "t" + std::to_string(i) + "/"; if (!g.chance(12)) for (int q = 1 + (g.chance(40) ? g.r(4) : 0); q--;) l += g.chance(fl) ? g.pickc(cmds) : g.chance(20) ? g.pickc("oqimXYnprsCD") : "o"; for (int j = i + 1; j < k; ++j) if (g.chance(dens)) l += " t" + std::to_string(j); rules.push_back(l); }
        if (g.chance(50)) std::reverse(rules.begin(), rules.end());
        for (auto &x : rules) f.push_back(x);
        g.put(f);
    }
}
}
#endif
