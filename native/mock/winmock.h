#ifndef WINMOCK_H
#define WINMOCK_H
#include <QString>
#include <QMap>
struct WinMock {
    QMap<QString, quint64> files;     // lower-case path with / separators (relative to cwd) -> last write time
    QString cwd;                      // prefix removed from absolute names (with trailing /)
    QMap<QString, QString> env;       // upper-case name -> value
    QString temp = QStringLiteral("/nonexistent/");
    quint64 now = 1000;
    unsigned tick = 1;
    int statCalls = 0;
};
extern WinMock g_win;
#endif
