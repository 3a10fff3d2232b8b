#ifndef VERIF_STRSAFE_H
#define VERIF_STRSAFE_H
#include <windows.h>
HRESULT StringCchPrintf(wchar_t *, size_t, const wchar_t *, ...);
#endif
