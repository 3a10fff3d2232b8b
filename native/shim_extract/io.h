/* Declarations of the Windows API parts that jomprocess.cpp uses (for reading its text only; nothing is called). */
#pragma once
#include <windows.h>
#include <QObject>
struct OVERLAPPED { void *hEvent; };
typedef OVERLAPPED *LPOVERLAPPED;
#define INVALID_HANDLE_VALUE ((HANDLE)(long long)-1)
#define STILL_ACTIVE 259
struct SECURITY_ATTRIBUTES { DWORD nLength; void *lpSecurityDescriptor; BOOL bInheritHandle; };
struct STARTUPINFO { DWORD cb; DWORD dwFlags; HANDLE hStdInput, hStdOutput, hStdError; };
struct PROCESS_INFORMATION { HANDLE hProcess, hThread; DWORD dwProcessId, dwThreadId; };
enum { PIPE_TYPE_BYTE = 0, PIPE_READMODE_BYTE = 0, PIPE_WAIT = 0, PIPE_ACCESS_INBOUND = 1, FILE_FLAG_OVERLAPPED = 0x40000000, ERROR_PIPE_BUSY = 231, OPEN_EXISTING = 3, STARTF_USESTDHANDLES = 0x100, CREATE_UNICODE_ENVIRONMENT = 0x400, ERROR_IO_PENDING = 997, _O_BINARY = 0x8000, ERROR_SUCCESS = 0, INFINITE_ = 0 };
#define GENERIC_WRITE 0x40000000u
#define INFINITE 0xffffffffu
BOOL CloseHandle(HANDLE);
int rand_s(unsigned *);
int swprintf_s(wchar_t *, size_t, const wchar_t *, ...);
DWORD GetLastError();
BOOL ConnectNamedPipe(HANDLE, OVERLAPPED *);
wchar_t *_wcsdup(const wchar_t *);
BOOL GetExitCodeProcess(HANDLE, DWORD *);
BOOL PeekNamedPipe(HANDLE, void *, DWORD, DWORD *, DWORD *, DWORD *);
int _setmode(int, int);
HANDLE CreateNamedPipe(const wchar_t *, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, SECURITY_ATTRIBUTES *);
HANDLE CreateFile(const wchar_t *, DWORD, DWORD, SECURITY_ATTRIBUTES *, DWORD, DWORD, HANDLE);
BOOL CreateProcess(const wchar_t *, wchar_t *, SECURITY_ATTRIBUTES *, SECURITY_ATTRIBUTES *, BOOL, DWORD, void *, const wchar_t *, STARTUPINFO *, PROCESS_INFORMATION *);
BOOL ReadFile(HANDLE, void *, DWORD, DWORD *, OVERLAPPED *);
class QWinEventNotifier : public QObject { Q_OBJECT public: explicit QWinEventNotifier(QObject *parent = 0); explicit QWinEventNotifier(HANDLE h, QObject *parent = 0); void setHandle(HANDLE); HANDLE handle() const; void setEnabled(bool); bool isEnabled() const; void activated(HANDLE); };
#define ZeroMemory(p, n) __builtin_memset((p), 0, (n))
