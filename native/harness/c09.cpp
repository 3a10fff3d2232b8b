#include "sim.h"
#include "application.h"
/* SIM: a whole build (sim.h).   SUB <sub jom?> <job count given with /J, or empty> <inherited job count, or "none">: who creates a job server */
__attribute__((weak)) bool jomInitJobServer(const NMakeFile::Application &, NMakeFile::ProcessEnvironment *, NMakeFile::JobServer **);
static std::string sub(const Fields &f)
{
    if (f.size() < 4) return "malformed case";
    if (!jomInitJobServer) return "";
    static char raw[sizeof(NMakeFile::Application) + 64] __attribute__((aligned(16)));
    NMakeFile::Application &app = *reinterpret_cast<NMakeFile::Application *>(raw);
    app.m_bIsSubJOM = f[1] == "1";
    if (f[2].size() > 4 || (!f[2].empty() && atoi(f[2].c_str()) < 1)) return "malformed case";
    NMakeFile::g_options.isMaxNumberOfJobsSet = !f[2].empty(); NMakeFile::g_options.maxNumberOfJobs = f[2].empty() ? 8 : atoi(f[2].c_str());
    int jobs = NMakeFile::g_options.maxNumberOfJobs, inherited = jobs;
    NMakeFile::ProcessEnvironment env;
    QSystemSemaphore::reset(0);
    if (app.m_bIsSubJOM) env.insert(QLatin1String("_JOMSRVKEY_"), QLatin1String("key"));
    if (f[3] != "none") { env.insert(QLatin1String("_JOMJOBCOUNT_"), Q(f[3])); bool ok; int n = Q(f[3]).toInt(&ok); if (ok && n > 0) inherited = n; }
    NMakeFile::JobServer *js = 0;
    bool ok = jomInitJobServer(app, &env, &js); delete js;
    bool want = f[1] != "1" || (!f[2].empty() && jobs != inherited);
    QSystemSemaphore::State &s = QSystemSemaphore::state(); std::string r;
    if (!ok) r = "the job server does not start";
    else if (s.created != (want ? 1 : 0)) r = want ? "no job server is created" : "a second job server is created although the number of jobs is inherited";
    else if (want && s.value != jobs - 1) r = "the job server has " + std::to_string(s.value) + " tokens for " + std::to_string(jobs) + " jobs";
    else if (!want && env.value(QLatin1String("_JOMSRVKEY_")) != QLatin1String("key")) r = "the inherited job server is lost";
    NMakeFile::g_options.isMaxNumberOfJobsSet = false;
    return r;
}
static std::string check(const Fields &f) { if (!f.empty() && f[0] == "SUB") return sub(f); return sim::check(f, sim::SLOTS); }
static void gen(Gen &g)
{
    for (auto s : {"0", "1"}) for (auto j : {"", "1", "2", "3", "8", "9", "64"}) for (auto i : {"none", "", "1", "2", "3", "8", "9", "64", "0", "-1", "x", "8 ", "08", "2147483648"}) g.put({"SUB", s, j, i});
    sim::gen(g, "o19xMyNecIiIXmpr");
}
static Reg reg("C09", check, gen);
