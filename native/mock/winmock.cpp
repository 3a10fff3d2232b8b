#include "winmock.h"
#include <windows.h>
#include <QSystemSemaphore>
#include <QHash>
#include <cstring>
WinMock g_win;
static QString w2q(const wchar_t *p) { return QString::fromUtf16(reinterpret_cast<const ushort *>(p)); }
static void q2w(const QString &s, wchar_t *b) { memcpy(b, s.utf16(), (s.length() + 1) * 2); }
BOOL GetFileAttributesExW(const wchar_t *n, GET_FILEEX_INFO_LEVELS, void *out)
{
    QString name = w2q(n);
    if (name.startsWith(QLatin1String("\\\\?\\"))) name.remove(0, 4);
    name.replace(QLatin1Char('\\'), QLatin1Char('/'));
    QString key = name;
    if (!g_win.cwd.isEmpty() && key.startsWith(g_win.cwd)) key.remove(0, g_win.cwd.length());
    key = key.toLower();
    g_win.statCalls++;
    auto it = g_win.files.find(key);
    if (it == g_win.files.end()) return FALSE;
    WIN32_FILE_ATTRIBUTE_DATA *d = static_cast<WIN32_FILE_ATTRIBUTE_DATA *>(out);
    memset(d, 0, sizeof *d);
    d->dwFileAttributes = 0x80;
    d->ftLastWriteTime.dwLowDateTime = (DWORD)(*it & 0xffffffffu);
    d->ftLastWriteTime.dwHighDateTime = (DWORD)(*it >> 32);
    return TRUE;
}
static quint64 v(const FILETIME *f) { return (quint64(f->dwHighDateTime) << 32) | f->dwLowDateTime; }
long CompareFileTime(const FILETIME *a, const FILETIME *b) { return v(a) < v(b) ? -1 : v(a) > v(b) ? 1 : 0; }
void GetSystemTime(SYSTEMTIME *t) { memset(t, 0, sizeof *t); }
BOOL SystemTimeToFileTime(const SYSTEMTIME *, FILETIME *f) { f->dwLowDateTime = (DWORD)g_win.now; f->dwHighDateTime = (DWORD)(g_win.now >> 32); return TRUE; }
BOOL FileTimeToSystemTime(const FILETIME *, SYSTEMTIME *t) { memset(t, 0, sizeof *t); return TRUE; }
BOOL SystemTimeToTzSpecificLocalTime(const void *, SYSTEMTIME *a, SYSTEMTIME *b) { *b = *a; return TRUE; }
DWORD GetEnvironmentVariable(const wchar_t *n, wchar_t *b, DWORD sz)
{
    auto it = g_win.env.find(w2q(n).toUpper());
    if (it == g_win.env.end()) return 0;
    if ((DWORD)it->length() + 1 > sz) return it->length() + 1;
    q2w(*it, b);
    return it->length();
}
DWORD GetEnvironmentVariableA(const char *n, char *, DWORD)
{
    auto it = g_win.env.find(QString::fromLatin1(n).toUpper());
    return it == g_win.env.end() ? 0 : it->length() + 1;
}
BOOL SetEnvironmentVariable(const wchar_t *n, const wchar_t *val)
{
    if (val) g_win.env[w2q(n).toUpper()] = w2q(val); else g_win.env.remove(w2q(n).toUpper());
    return TRUE;
}
DWORD GetTickCount() { return g_win.tick++; }
DWORD GetCurrentProcessId() { return 4711; }
DWORD GetTempPathW(DWORD, wchar_t *b) { q2w(g_win.temp, b); return g_win.temp.length(); }
DWORD GetModuleFileNameW(void *, wchar_t *b, DWORD) { q2w(QStringLiteral("jom"), b); return 3; }
BOOL SetConsoleCtrlHandler(PHANDLER_ROUTINE, BOOL) { return TRUE; }
BOOL GenerateConsoleCtrlEvent(DWORD, DWORD) { return TRUE; }
FILE *_wfopen(const wchar_t *, const wchar_t *) { return nullptr; }
FILE *_wfreopen(const wchar_t *, const wchar_t *, FILE *) { return nullptr; }
HRESULT StringCchPrintf(wchar_t *b, size_t, const wchar_t *, ...) { b[0] = 0; return 0; }

QSystemSemaphore::State &QSystemSemaphore::state() { static State s; return s; }
void QSystemSemaphore::reset(int v) { State &s = state(); std::lock_guard<std::mutex> l(s.m); s.value = v; s.waiting = s.grants = s.acquired = s.released = s.created = 0; s.shutdown = false; s.foreign = 0; s.createdKey = QString(); }
QSystemSemaphore::QSystemSemaphore(const QString &k, int initial, AccessMode mode) : m_key(k)
{ if (mode == Create) { State &s = state(); std::lock_guard<std::mutex> l(s.m); s.value = initial; s.created++; s.createdKey = k; } else { State &s = state(); std::lock_guard<std::mutex> l(s.m); if (k != s.createdKey) s.foreign++; } }
bool QSystemSemaphore::acquire()
{
    State &s = state();
    std::unique_lock<std::mutex> l(s.m);
    s.waiting++;
    s.cv.wait(l, [&] { return s.grants > 0 || s.shutdown; });
    s.waiting--;
    if (s.shutdown) return false;
    s.grants--;
    s.acquired++;
    return true;
}
bool QSystemSemaphore::release(int n) { State &s = state(); std::lock_guard<std::mutex> l(s.m); s.value += n; s.released += n; return true; }
bool QSystemSemaphore::grant()
{
    State &s = state();
    std::lock_guard<std::mutex> l(s.m);
    if (s.value <= 0 || s.waiting - s.grants <= 0) return false;
    s.value--; s.grants++;
    s.cv.notify_all();
    return true;
}
