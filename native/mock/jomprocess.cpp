#include "jomprocess.h"
namespace NMakeFile {
QList<Process *> Process::all;
std::function<int(Process *, const QString &)> Process::onStart;
std::function<void(Process *)> Process::onWait;
std::function<void(Process *)> Process::onBuffered;
Process::Process(QObject *parent) : QObject(parent), m_state(NotRunning), m_exitCode(0), m_exitStatus(NormalExit), m_bufferedOutput(true) { all.append(this); }
Process::~Process() { all.removeAll(this); }
void Process::setBufferedOutput(bool b) { m_bufferedOutput = b; if (onBuffered) onBuffered(this); }
void Process::start(const QString &c)
{
    m_cmd = c; m_state = Starting; m_exitCode = 0; m_exitStatus = NormalExit;
    if (onStart && onStart(this, c)) { m_state = NotRunning; emit error(FailedToStart); return; }
    m_state = Running;
}
void Process::finish(int code, bool crash)
{
    m_state = NotRunning; m_exitCode = code; m_exitStatus = crash ? CrashExit : NormalExit;
    emit finished(m_exitCode, m_exitStatus);
}
bool Process::waitForFinished() { if (m_state != Running) return true; if (onWait) onWait(this); return true; }
}
