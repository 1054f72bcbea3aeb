#include <cstdint>
typedef unsigned long DWORD; typedef int BOOL; struct SRWLOCK{void*p;}; struct CONDITION_VARIABLE{void*p;};
static const unsigned INFINITE=0xFFFFFFFFu;
#include <mutex>
#include <condition_variable>
#include <unordered_map>
#include <chrono>
// one global lock: simple
static std::mutex M; static std::condition_variable C;
struct L{int readers=0;bool w=false;}; static std::unordered_map<void*,L> Ls; struct CV{unsigned long gen=0;}; static std::unordered_map<void*,CV> Cs;
extern "C"{
void AcquireSRWLockExclusive(SRWLOCK*l){std::unique_lock<std::mutex> k(M);C.wait(k,[&]{auto&x=Ls[l];return !x.w&&!x.readers;});Ls[l].w=true;}
void AcquireSRWLockShared(SRWLOCK*l){std::unique_lock<std::mutex> k(M);C.wait(k,[&]{auto&x=Ls[l];return !x.w;});Ls[l].readers++;}
void ReleaseSRWLockExclusive(SRWLOCK*l){std::unique_lock<std::mutex> k(M);Ls[l].w=false;C.notify_all();}
void ReleaseSRWLockShared(SRWLOCK*l){std::unique_lock<std::mutex> k(M);Ls[l].readers--;C.notify_all();}
void InitializeConditionVariable(CONDITION_VARIABLE*){}
BOOL SleepConditionVariableSRW(CONDITION_VARIABLE*c,SRWLOCK*l,DWORD ms,unsigned long fl){
 std::unique_lock<std::mutex> k(M); auto g=Cs[c].gen; if(fl&1)Ls[l].readers--; else Ls[l].w=false; C.notify_all();
 auto p=[&]{return Cs[c].gen!=g;};
 if(ms==INFINITE) C.wait(k,p); else C.wait_for(k,std::chrono::milliseconds(ms),p);
 C.wait(k,[&]{auto&x=Ls[l];return (fl&1)? !x.w : (!x.w&&!x.readers);}); if(fl&1)Ls[l].readers++; else Ls[l].w=true; return 1;}
void WakeConditionVariable(CONDITION_VARIABLE*c){std::unique_lock<std::mutex> k(M);Cs[c].gen++;C.notify_all();}
void WakeAllConditionVariable(CONDITION_VARIABLE*c){std::unique_lock<std::mutex> k(M);Cs[c].gen++;C.notify_all();}
}
#include <typeinfo>
#include <cstring>
extern "C" __attribute__((weak)) bool _ZNKSt9type_infoeqERKS_(const std::type_info*a,const std::type_info*b){ return a->name()==b->name()||(a->name()[0]!='*'&&!strcmp(a->name(),b->name())); }
