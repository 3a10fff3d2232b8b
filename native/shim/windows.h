/* Minimal stand-in for <windows.h>, so that the real jomlib sources can be
 * parsed (extraction) and compiled natively (replay harness) on Linux.
 * Only declarations; the definitions are in mock/winmock.cpp. */
#ifndef VERIF_WINDOWS_H
#define VERIF_WINDOWS_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cwchar>
typedef uint32_t DWORD; typedef uint16_t WORD; typedef int BOOL; typedef wchar_t WCHAR; typedef wchar_t TCHAR;
typedef void *HANDLE; typedef long HRESULT; typedef unsigned int UINT; typedef void VOID; typedef void *LPVOID;
typedef const wchar_t *LPCWSTR; typedef wchar_t *LPWSTR; typedef unsigned long ULONG_PTR;
#ifndef WINAPI
#define WINAPI
#endif
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define MAX_PATH 260
#define CTRL_C_EVENT 0
#define INVALID_FILE_ATTRIBUTES ((DWORD)-1)
typedef struct { DWORD dwLowDateTime; DWORD dwHighDateTime; } FILETIME;
typedef struct { WORD wYear, wMonth, wDayOfWeek, wDay, wHour, wMinute, wSecond, wMilliseconds; } SYSTEMTIME;
typedef struct { DWORD dwFileAttributes; FILETIME ftCreationTime, ftLastAccessTime, ftLastWriteTime; DWORD nFileSizeHigh, nFileSizeLow; } WIN32_FILE_ATTRIBUTE_DATA;
enum GET_FILEEX_INFO_LEVELS { GetFileExInfoStandard };
extern "C++" {
BOOL GetFileAttributesExW(const wchar_t *, GET_FILEEX_INFO_LEVELS, void *);
inline BOOL GetFileAttributesEx(const wchar_t *a, GET_FILEEX_INFO_LEVELS b, void *c) { return GetFileAttributesExW(a, b, c); }
long CompareFileTime(const FILETIME *, const FILETIME *);
void GetSystemTime(SYSTEMTIME *);
BOOL SystemTimeToFileTime(const SYSTEMTIME *, FILETIME *);
BOOL FileTimeToSystemTime(const FILETIME *, SYSTEMTIME *);
BOOL SystemTimeToTzSpecificLocalTime(const void *, SYSTEMTIME *, SYSTEMTIME *);
DWORD GetEnvironmentVariable(const wchar_t *, wchar_t *, DWORD);
BOOL SetEnvironmentVariable(const wchar_t *, const wchar_t *);
DWORD GetTickCount();
DWORD GetCurrentProcessId();
DWORD GetTempPathW(DWORD, wchar_t *);
DWORD GetModuleFileNameW(void *, wchar_t *, DWORD);
DWORD GetEnvironmentVariableA(const char *, char *, DWORD);
typedef BOOL (WINAPI *PHANDLER_ROUTINE)(DWORD);
BOOL SetConsoleCtrlHandler(PHANDLER_ROUTINE, BOOL);
BOOL GenerateConsoleCtrlEvent(DWORD, DWORD);
FILE *_wfopen(const wchar_t *, const wchar_t *);
FILE *_wfreopen(const wchar_t *, const wchar_t *, FILE *);
}
#define SUCCEEDED(hr) ((hr) >= 0)
#endif
