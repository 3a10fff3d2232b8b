/* Replay harness: stands in for jomprocess.h (the Windows process API). Records what would be started and
 * lets the harness decide how processes end. */
#ifndef PROCESS_H
#define PROCESS_H
#include "processenvironment.h"
#include <QObject>
#include <QStringList>
#include <functional>
namespace NMakeFile {
class Process : public QObject
{
    Q_OBJECT
public:
    explicit Process(QObject *parent = 0);
    ~Process();
    enum ProcessError { UnknownError, FailedToStart, Crashed };
    enum ExitStatus { NormalExit, CrashExit };
    enum ProcessState { NotRunning, Starting, Running };
    void setBufferedOutput(bool b);
    bool isBufferedOutputSet() const { return m_bufferedOutput; }
    void writeToStdOutBuffer(const QByteArray &output) { m_out += output; }
    void writeToStdErrBuffer(const QByteArray &output) { m_err += output; }
    void setWorkingDirectory(const QString &path) { m_workingDirectory = path; }
    const QString &workingDirectory() const { return m_workingDirectory; }
    void setEnvironment(const ProcessEnvironment &environment) { m_environment = environment; }
    const ProcessEnvironment &environment() const { return m_environment; }
    int exitCode() const { return m_exitCode; }
    ExitStatus exitStatus() const { return m_exitStatus; }
    bool isRunning() const { return m_state == Running; }
    void finish(int code, bool crash);
signals:
    void error(Process::ProcessError);
    void finished(int, Process::ExitStatus);
public slots:
    void start(const QString &commandLine);
    bool waitForFinished();
public:
    QString m_workingDirectory;
    ProcessEnvironment m_environment;
    ProcessState m_state;
    int m_exitCode;
    ExitStatus m_exitStatus;
    bool m_bufferedOutput;
    QString m_cmd;
    QByteArray m_out, m_err;
    static QList<Process *> all;
    static std::function<int(Process *, const QString &)> onStart;   // 0 = runs, 1 = fails to start
    static std::function<void(Process *)> onWait;                    // waitForFinished on a running process
    static std::function<void(Process *)> onBuffered;
};
} // namespace NMakeFile
#endif
