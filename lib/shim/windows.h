#pragma once
// minimal
#include <cstdint>
typedef unsigned long DWORD; typedef int BOOL; typedef void* HANDLE;
#define TRUE 1
#define FALSE 0
#define INFINITE 0xFFFFFFFFu
struct SRWLOCK{void*p;}; struct CONDITION_VARIABLE{void*p;};
#define SRWLOCK_INIT {0}
#define CONDITION_VARIABLE_LOCKMODE_SHARED 1
extern "C" {
void AcquireSRWLockExclusive(SRWLOCK*); void AcquireSRWLockShared(SRWLOCK*);
void ReleaseSRWLockExclusive(SRWLOCK*); void ReleaseSRWLockShared(SRWLOCK*);
void InitializeConditionVariable(CONDITION_VARIABLE*);
BOOL SleepConditionVariableSRW(CONDITION_VARIABLE*,SRWLOCK*,DWORD,unsigned long);
void WakeConditionVariable(CONDITION_VARIABLE*); void WakeAllConditionVariable(CONDITION_VARIABLE*);
}
inline HANDLE GetCurrentThread(){return 0;} inline HANDLE GetCurrentProcess(){return 0;}
inline BOOL SetThreadPriorityBoost(HANDLE,BOOL){return 1;} inline int GetThreadPriority(HANDLE){return 0;}
template<class H> inline BOOL SetThreadPriority(H,int){return 1;} inline DWORD GetPriorityClass(HANDLE){return 32;} inline BOOL SetPriorityClass(HANDLE,DWORD){return 1;}
#define NORMAL_PRIORITY_CLASS 32
#define HIGH_PRIORITY_CLASS 128
#define REALTIME_PRIORITY_CLASS 256
#define THREAD_PRIORITY_NORMAL 0
#define THREAD_PRIORITY_TIME_CRITICAL 15
#define THREAD_PRIORITY_ERROR_RETURN 0x7fffffff
