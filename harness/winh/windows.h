// stand-in for the Windows SDK header (BOOST_USE_WINDOWS_H builds), see ../win.hpp
#pragma once
typedef struct _RTL_CRITICAL_SECTION CRITICAL_SECTION;
extern "C" { void InitializeCriticalSection(CRITICAL_SECTION *); void EnterCriticalSection(CRITICAL_SECTION *); int TryEnterCriticalSection(CRITICAL_SECTION *); void LeaveCriticalSection(CRITICAL_SECTION *); void DeleteCriticalSection(CRITICAL_SECTION *); }
