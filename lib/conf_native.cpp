// Conflict detector for the pieces of one parallel operation, which run one after another in one thread: two pieces
// that touch the same byte, at least one of them writing, would race in the real pool. The harness is compiled with
// -fsanitize=thread (instrumentation only); stack memory below the point where the region began is piece-private.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <unordered_map>
#include <mutex>
struct Sh{ uint32_t epoch; uint16_t w,r,multi; };
static std::unordered_map<uintptr_t,Sh>* M; static uint32_t ep; static int cur; static bool on,busy; static char msg[200]; static bool bad; static uintptr_t top;
static inline void acc(const void*p_,size_t n,bool wr){ if(!on||busy||!cur) return; uintptr_t p=(uintptr_t)p_; uintptr_t sp=(uintptr_t)__builtin_frame_address(0); if(p>=sp&&p<top) return; busy=true;
	for(size_t i=0;i<n;i++){ Sh&s=(*M)[p+i]; if(s.epoch!=ep){ s=Sh{ep,0,0,0}; } 
		if(wr){ if((s.w&&s.w!=cur)||(s.r&&(s.r!=cur||s.multi))){ if(!bad){ bad=true; snprintf(msg,sizeof msg,"piece %d writes what piece %d %s",cur,(int)(s.w&&s.w!=cur?s.w:s.r),s.w&&s.w!=cur?"wrote":"read"); } } s.w=cur; }
		else { if(s.w&&s.w!=cur){ if(!bad){ bad=true; snprintf(msg,sizeof msg,"piece %d reads what piece %d wrote",cur,(int)s.w); } } if(s.r&&s.r!=cur) s.multi=1; else s.r=cur; } }
	busy=false; }
extern "C" {
void conf_region(){ if(!M) M=new std::unordered_map<uintptr_t,Sh>(1<<16); ep++; if(M->size()>2000000) M->clear(); on=true; bad=false; cur=0; top=(uintptr_t)__builtin_frame_address(0); }
void conf_piece(int i){ cur=i; }
const char* conf_end(){ on=false; cur=0; return bad?msg:nullptr; }
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
#define RW(n) void __tsan_read##n(void*p){acc(p,n,false);} void __tsan_write##n(void*p){acc(p,n,true);} void __tsan_unaligned_read##n(void*p){acc(p,n,false);} void __tsan_unaligned_write##n(void*p){acc(p,n,true);} \
 void __tsan_volatile_read##n(void*p){acc(p,n,false);} void __tsan_volatile_write##n(void*p){acc(p,n,true);} void __tsan_read_write##n(void*p){acc(p,n,false);acc(p,n,true);} void __tsan_unaligned_read_write##n(void*p){acc(p,n,false);acc(p,n,true);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,size_t n){acc(p,n,false);} void __tsan_write_range(void*p,size_t n){acc(p,n,true);}
void __tsan_vptr_update(void**p,void*v){ acc(p,8,true);} void __tsan_vptr_read(void**p){acc(p,8,false);}
void* __tsan_memcpy(void*d,const void*s,size_t n){ acc(s,n,false); acc(d,n,true); return memcpy(d,s,n);} void* __tsan_memmove(void*d,const void*s,size_t n){ acc(s,n,false); acc(d,n,true); return memmove(d,s,n);} void* __tsan_memset(void*d,int v,size_t n){ acc(d,n,true); return memset(d,v,n);}
#define AT(B,TY) TY __tsan_atomic##B##_load(const volatile TY*p,int){ return *p;} void __tsan_atomic##B##_store(volatile TY*p,TY v,int){ *p=v;} TY __tsan_atomic##B##_exchange(volatile TY*p,TY v,int){ TY o=*p;*p=v;return o;} TY __tsan_atomic##B##_fetch_add(volatile TY*p,TY v,int){ TY o=*p;*p=o+v;return o;} TY __tsan_atomic##B##_fetch_sub(volatile TY*p,TY v,int){ TY o=*p;*p=o-v;return o;} \
 int __tsan_atomic##B##_compare_exchange_strong(volatile TY*p,TY*c,TY v,int,int){ if(*p==*c){*p=v;return 1;} *c=*p; return 0;} int __tsan_atomic##B##_compare_exchange_weak(volatile TY*p,TY*c,TY v,int a,int b){ return __tsan_atomic##B##_compare_exchange_strong(p,c,v,a,b);} TY __tsan_atomic##B##_compare_exchange_val(volatile TY*p,TY c,TY v,int a,int b){ __tsan_atomic##B##_compare_exchange_strong(p,&c,v,a,b); return c;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
