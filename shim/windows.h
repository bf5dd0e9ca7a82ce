// Stand-in for <windows.h>, written for the Linux build: ColorMagic/stdafx.h includes it, but
// only ColorMagic/dllmain.cpp (an empty entry point) uses names from it.
#pragma once
typedef int BOOL;
typedef unsigned int DWORD;
typedef void *LPVOID;
typedef struct HINSTANCE__ *HMODULE;
#define APIENTRY
#define TRUE 1
#define FALSE 0
#define DLL_PROCESS_DETACH 0
#define DLL_PROCESS_ATTACH 1
#define DLL_THREAD_ATTACH 2
#define DLL_THREAD_DETACH 3
