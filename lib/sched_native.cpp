// Controlled scheduler + happens-before race detector.
// The harness is compiled with -fsanitize=thread (instrumentation only); this file supplies the __tsan_*
// entry points, interposes pthread synchronisation, the Win32 SRW/condition API of shim/windows.h and the clock,
// lets exactly one thread run at a time and enumerates every schedule up to a preemption bound.
#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <atomic>
typedef uint64_t u64; typedef uint32_t u32;
static const int MAXT=10;
struct VC{ u32 c[MAXT]; void clear(){memset(c,0,sizeof c);} void join(const VC&o){ for(int i=0;i<MAXT;i++) if(o.c[i]>c[i]) c[i]=o.c[i]; } };
enum St{ FREE,RUN,WANT_X,WANT_S,CONDW,JOIN,DONE,YIELD };
struct Thr{ St st; void* obj; void* lk; bool shared; bool timed; int64_t deadline; bool timedout; int jt; int fut; VC vc,fenceRel,pendAcq; bool hasRel; u64 steps; void*(*fn)(void*); void* arg; pthread_t pt; bool detached; };
static Thr T[MAXT]; static int nT=0, cur=0; static bool active=false;
struct Lk{ int owner=-1; int readers=0; int rd[MAXT]={0}; VC vc,rvc; Lk(){vc.clear();rvc.clear();} };
static std::map<void*,Lk>* locks; struct At{VC vc; At(){vc.clear();}};
template<class X> struct Mal{ typedef X value_type; Mal(){} template<class U> Mal(const Mal<U>&){} X* allocate(size_t n){return (X*)malloc(n*sizeof(X));} void deallocate(X*p,size_t){free(p);} template<class U> bool operator==(const Mal<U>&)const{return true;} template<class U> bool operator!=(const Mal<U>&)const{return false;} };
typedef std::unordered_map<u64,At,std::hash<u64>,std::equal_to<u64>,Mal<std::pair<const u64,At>>> Ats; static Ats* ats;
static int64_t vnow=1000000000; static unsigned g_hw=2;
static __thread int selfId=-1;
static int hb_off=0; // inside runtime
struct Point{ int n; int pick; signed char cost[24]; bool data; u64 sig; };
static std::vector<Point> pts; static size_t pos; static int bound=2, spurBudget=0, gBoundQ=2; static size_t costSoFar;
static std::vector<int> prefix; static std::vector<u64> prefixSig;
static u64 nExec,nTrans,nChecks,nOps,nStep; static std::unordered_set<u64>* states; static std::unordered_set<u64>* outcomes; static std::vector<std::string>* samples;
static bool thorough=false,replaying=false; static int shardI=0,shardN=1; static const char* scn=""; static const char* statsF=nullptr; static double deadline=1e18,t0; static bool capped=false; static size_t maxdepth=0;
static std::map<std::string,u64>* per; static std::map<std::string,u64>* notes;
struct Trail{ char scn[64]; u64 execs; int n; int pick[16000]; }; static Trail* trail=nullptr;
static int consecTimeouts=0; static u64 racesIgnored=0;
static double rnow(){ timespec ts; clock_gettime(CLOCK_MONOTONIC,&ts); return ts.tv_sec+ts.tv_nsec*1e-9; }
static u64 hm(u64 h,u64 v){ h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>32; return h; }
static std::string jstr(const std::string&s){ std::string r="\""; for(unsigned char ch:s){ if(ch=='"'||ch=='\\'){r+='\\';r+=ch;} else if(ch<32||ch>126){char b[8];sprintf(b,"\\u%04x",ch);r+=b;} else r+=ch;} return r+"\""; }
static std::string chs(){ std::string s; for(size_t i=0;i<pos&&i<pts.size();i++){ if(i)s+=','; s+=std::to_string(pts[i].pick);} return s; }
static void dump(const char* fail){
	if(!statsF) return; FILE*f=fopen(statsF,"w"); if(!f) return;
	fprintf(f,"{\"execs\":%llu,\"ops\":%llu,\"checks\":%llu,\"states\":%zu,\"outcomes\":%zu,\"maxdepth\":%zu,\"capped\":%s,\"wall\":%.3f,\"per\":{",(unsigned long long)nExec,(unsigned long long)nTrans,(unsigned long long)nChecks,states->size(),outcomes->size(),maxdepth,capped?"true":"false",rnow()-t0);
	bool first=true; for(auto&p:*per){ fprintf(f,"%s%s:%llu",first?"":",",jstr(p.first).c_str(),(unsigned long long)p.second); first=false; }
	fprintf(f,"},\"notes\":{\"harness_ops\":%llu",(unsigned long long)nOps); for(auto&p:*notes) fprintf(f,",%s:%llu",jstr(p.first).c_str(),(unsigned long long)p.second);
	fprintf(f,"},\"samples\":["); first=true; for(auto&s:*samples){ fprintf(f,"%s%s",first?"":",",jstr(s).c_str()); first=false; } fprintf(f,"]");
	if(fail) fprintf(f,",\"fail\":%s,\"scenario\":%s,\"choices\":%s",jstr(fail).c_str(),jstr(scn).c_str(),jstr(chs()).c_str());
	fprintf(f,"}\n"); fclose(f);
}
extern "C" void sched_fail(const char* fmt,...){ active=false; char b[1500]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a);
	printf("MCFAIL scenario=%s choices=%s : %s\n",scn,chs().c_str(),b); fflush(stdout); dump(b); _exit(9); }
static void fwait(int*f){ while(__atomic_load_n(f,__ATOMIC_ACQUIRE)==0) syscall(SYS_futex,f,FUTEX_WAIT_PRIVATE,0,0,0,0); __atomic_store_n(f,0,__ATOMIC_RELAXED); }
static void fwake(int*f){ __atomic_store_n(f,1,__ATOMIC_RELEASE); syscall(SYS_futex,f,FUTEX_WAKE_PRIVATE,1,0,0,0); }
static int pickOpt(int n,const signed char* cost,bool data,u64 sig){
	Point p; p.n=n; p.data=data; p.sig=sig; if(n>24) { fprintf(stderr,"too many options\n"); _exit(4);} for(int i=0;i<n;i++) p.cost[i]=cost?cost[i]:0; p.pick=0;
	if(pos<prefix.size()){ p.pick=prefix[pos]; if(p.pick>=n){ fprintf(stderr,"sched: replay diverged (option out of range) in %s at %zu\n",scn,pos); _exit(4);} if(pos<prefixSig.size()&&prefixSig[pos]!=sig){ fprintf(stderr,"sched: nondeterministic execution in %s at point %zu\n",scn,pos); _exit(4);} }
	pts.push_back(p); pos++; if(pos>maxdepth)maxdepth=pos; if(trail&&pos<=16000){trail->pick[pos-1]=p.pick; trail->n=(int)pos;}
	return p.pick;
}
extern "C" int sched_choose(int n){ if(n<=1) return 0; return pickOpt(n,nullptr,true,0x1000+n); }
static bool canRun(int t){ Thr&x=T[t]; switch(x.st){ case RUN: return true; case WANT_X:{ auto&l=(*locks)[x.obj]; return l.owner<0&&l.readers==0;} case WANT_S:{ auto&l=(*locks)[x.obj]; return l.owner<0;} case JOIN: return T[x.jt].st==DONE; case YIELD: return true; default: return false; } }
static void grant(int t){ Thr&x=T[t]; 
	if(x.st==WANT_X){ auto&l=(*locks)[x.obj]; l.owner=t; x.vc.join(l.vc); x.vc.join(l.rvc); }
	else if(x.st==WANT_S){ auto&l=(*locks)[x.obj]; l.readers++; l.rd[t]++; x.vc.join(l.vc); }
	else if(x.st==JOIN){ x.vc.join(T[x.jt].vc); }
	x.st=RUN; x.steps++; nTrans++; }
static void describe(char*b,size_t n){ size_t k=0; static const char* nm[]={"free","run","wants-exclusive","wants-shared","cond-wait","join","done","yield"}; for(int i=0;i<nT;i++) k+=snprintf(b+k,n-k,"T%d:%s ",i,nm[T[i].st]); }
// the running thread `me` has set its pending state; choose who goes next. Returns when `me` has the token again.
static void schedule(int me){
	if(++nStep>6000) { char b[300]; describe(b,300); sched_fail("no progress: execution exceeded 6000 steps (%s)",b); }
	for(;;){
	int opt[24],kind[24]; signed char cost[24]; int n=0;
	bool meEn = T[me].st!=DONE && canRun(me) && T[me].st!=YIELD;
	if(meEn){ opt[n]=me;kind[n]=0;cost[n]=0;n++; }
	for(int i=0;i<nT;i++) if(i!=me && canRun(i) && T[i].st!=YIELD){ opt[n]=i;kind[n]=0;cost[n]=meEn?1:0;n++; }
	if(n==0) for(int q=1;q<=nT;q++){ int i=(me+q)%nT; if(canRun(i)){ opt[n]=i;kind[n]=0;cost[n]=n?1:0;n++; } } // only yielders: round robin (fair); anything else is a deviation
	int normal=n;
	// timeouts, by deadline
	{ std::vector<std::pair<int64_t,int>> to; for(int i=0;i<nT;i++) if(T[i].st==CONDW&&T[i].timed) to.push_back({T[i].deadline,i});
	  for(size_t a=0;a<to.size();a++) for(size_t b=a+1;b<to.size();b++) if(to[b]<to[a]) std::swap(to[a],to[b]);
	  for(size_t a=0;a<to.size()&&n<20;a++){ opt[n]=to[a].second;kind[n]=1;cost[n]= (normal==0&&a==0)?0:1; n++; } }
	if(n==0){ char b[300]; describe(b,300); sched_fail("deadlock: no thread can make progress (%s)",b); }
	if(spurBudget>0) for(int i=0;i<nT&&n<23;i++) if(T[i].st==CONDW&&T[i].lk){ opt[n]=i;kind[n]=2;cost[n]=1;n++; }
	u64 sig=n; for(int i=0;i<n;i++) sig=hm(sig,opt[i]*4+kind[i]); u64 sh=0; for(int i=0;i<nT;i++) sh=hm(sh,T[i].steps*16+T[i].st); states->insert(hm(sh,(u64)(size_t)scn));
	int k = n==1?0:pickOpt(n,cost,false,sig); int t=opt[k];
	if(kind[k]==1||kind[k]==2){ // leave the condition queue, go for the lock
		Thr&x=T[t]; x.timedout=kind[k]==1; if(kind[k]==1){ if(x.deadline>=vnow) vnow=x.deadline+1000000; if(normal==0&&++consecTimeouts>400){ char b[300]; describe(b,300); sched_fail("no progress: only timeouts fire (%s)",b);} } else spurBudget--;
		if(!x.lk){ x.st=RUN; continue; } x.obj=x.lk; x.st= x.shared?WANT_S:WANT_X; nTrans++; continue; }
	if(T[t].st!=YIELD && t!=me) consecTimeouts=0;
	grant(t); cur=t; if(t!=me){ bool done=T[me].st==DONE; fwake(&T[t].fut); if(done) return; fwait(&T[me].fut); }
	return; }
}
static void point(){ if(!active||selfId<0) return; schedule(selfId); }
extern "C" void sched_point(){ point(); }
// ---- locks
static void lkX(void*m){ T[selfId].st=WANT_X; T[selfId].obj=m; auto&l=(*locks)[m]; if(l.owner==selfId) sched_fail("self-deadlock: lock is already held by the calling thread"); schedule(selfId); }
static void lkS(void*m){ T[selfId].st=WANT_S; T[selfId].obj=m; schedule(selfId); }
static void tick(){ T[selfId].vc.c[selfId]++; }
static void relX(void*m){ auto&l=(*locks)[m]; if(l.owner!=selfId) sched_fail("unlock of a lock that the thread does not hold"); l.owner=-1; l.vc=T[selfId].vc; l.rvc.clear(); tick(); }
static void relS(void*m){ auto&l=(*locks)[m]; if(l.rd[selfId]<=0) sched_fail("shared unlock without a shared lock"); l.rd[selfId]--; l.readers--; l.rvc.join(T[selfId].vc); tick(); }
static void rel(void*m){ auto&l=(*locks)[m]; if(l.owner==selfId) relX(m); else relS(m); }
// returns true if timed out
static bool cwait(void*c,void*m,bool shared,bool timed,int64_t dl){
	point(); Thr&x=T[selfId]; if(shared) relS(m); else relX(m);
	x.st=CONDW; x.obj=c; x.lk=m; x.shared=shared; x.timed=timed; x.deadline=dl; x.timedout=false; schedule(selfId); return x.timedout; }
static void cwakeT(int t){ T[t].obj=T[t].lk; T[t].st=T[t].shared?WANT_S:WANT_X; }
static void cnotify(void*c,bool all){ point(); int w[MAXT],n=0; for(int i=0;i<nT;i++) if(T[i].st==CONDW&&T[i].obj==c) w[n++]=i; if(!n) return; consecTimeouts=0; if(all) for(int i=0;i<n;i++) cwakeT(w[i]); else cwakeT(w[n==1?0:pickOpt(n,nullptr,true,0x2000+n)]); }
#define LIVE (active&&selfId>=0)
// ---- pthread interposition
template<class F> static F real(F,const char*n){ static std::map<std::string,void*>*m=nullptr; if(!m)m=new std::map<std::string,void*>; auto&p=(*m)[n]; if(!p) p=dlsym(RTLD_NEXT,n); return (F)p; }
#define REAL(f) ((decltype(&f))dlsym(RTLD_NEXT,#f))
extern "C" {
int pthread_mutex_lock(pthread_mutex_t*m){ if(!LIVE) return REAL(pthread_mutex_lock)(m); lkX(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t*m){ if(!LIVE) return REAL(pthread_mutex_trylock)(m); point(); auto&l=(*locks)[m]; if(l.owner>=0||l.readers) return EBUSY; l.owner=selfId; T[selfId].vc.join(l.vc); T[selfId].vc.join(l.rvc); return 0; }
int pthread_mutex_unlock(pthread_mutex_t*m){ if(!LIVE) return REAL(pthread_mutex_unlock)(m); relX(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*m){ if(!LIVE) return REAL(pthread_mutex_destroy)(m); locks->erase(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t*m){ if(!LIVE) return REAL(pthread_rwlock_wrlock)(m); lkX(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t*m){ if(!LIVE) return REAL(pthread_rwlock_rdlock)(m); lkS(m); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t*m){ if(!LIVE) return REAL(pthread_rwlock_tryrdlock)(m); point(); auto&l=(*locks)[m]; if(l.owner>=0) return EBUSY; l.readers++; l.rd[selfId]++; T[selfId].vc.join(l.vc); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t*m){ if(!LIVE) return REAL(pthread_rwlock_trywrlock)(m); point(); auto&l=(*locks)[m]; if(l.owner>=0||l.readers) return EBUSY; l.owner=selfId; T[selfId].vc.join(l.vc); T[selfId].vc.join(l.rvc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t*m){ if(!LIVE) return REAL(pthread_rwlock_unlock)(m); rel(m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*m){ if(!LIVE) return REAL(pthread_rwlock_destroy)(m); locks->erase(m); return 0; }
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ if(!LIVE) return REAL(pthread_cond_wait)(c,m); cwait(c,m,false,false,0); return 0; }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const timespec*ts){ if(!LIVE) return REAL(pthread_cond_timedwait)(c,m,ts); return cwait(c,m,false,true,ts->tv_sec*1000000000ll+ts->tv_nsec)?ETIMEDOUT:0; }
int pthread_cond_clockwait(pthread_cond_t*c,pthread_mutex_t*m,clockid_t k,const timespec*ts){ if(!LIVE) return REAL(pthread_cond_clockwait)(c,m,k,ts); return cwait(c,m,false,true,ts->tv_sec*1000000000ll+ts->tv_nsec)?ETIMEDOUT:0; }
int pthread_cond_signal(pthread_cond_t*c){ if(!LIVE) return REAL(pthread_cond_signal)(c); cnotify(c,false); return 0; }
int pthread_cond_broadcast(pthread_cond_t*c){ if(!LIVE) return REAL(pthread_cond_broadcast)(c); cnotify(c,true); return 0; }
int pthread_cond_destroy(pthread_cond_t*c){ if(!LIVE) return REAL(pthread_cond_destroy)(c); for(int i=0;i<nT;i++) if(T[i].st==CONDW&&T[i].obj==c) sched_fail("condition variable destroyed while a thread waits on it"); return 0; }
static void* tramp(void*a){ int id=(int)(size_t)a; selfId=id; fwait(&T[id].fut); T[id].fn(T[id].arg); T[id].st=DONE; T[id].steps++; schedule(id); selfId=-1; return nullptr; }
int pthread_create(pthread_t*p,const pthread_attr_t*at,void*(*fn)(void*),void*arg){
	if(!LIVE) return REAL(pthread_create)(p,at,fn,arg);
	if(nT>=MAXT){ fprintf(stderr,"too many threads\n"); _exit(4);} int id=nT++; Thr&x=T[id]; memset(&x,0,sizeof x); x.st=RUN; x.fn=fn; x.arg=arg; x.vc=T[selfId].vc; x.vc.c[id]=1; tick();
	active=false; pthread_attr_t a2; pthread_attr_init(&a2); pthread_attr_setstacksize(&a2,256*1024); int r=REAL(pthread_create)(&x.pt,&a2,tramp,(void*)(size_t)id); pthread_attr_destroy(&a2); active=true; if(r){ fprintf(stderr,"pthread_create failed\n"); _exit(4);} *p=x.pt; point(); return 0; }
int pthread_join(pthread_t p,void**rv){ if(!LIVE) return REAL(pthread_join)(p,rv); for(int i=1;i<nT;i++) if(pthread_equal(T[i].pt,p)&&!T[i].detached){ T[selfId].st=JOIN; T[selfId].jt=i; schedule(selfId); T[i].detached=true; int r=REAL(pthread_join)(p,rv); return r; } return ESRCH; }
int pthread_detach(pthread_t p){ if(!LIVE) return REAL(pthread_detach)(p); return 0; }
int sched_yield(){ if(!LIVE) return 0; T[selfId].st=YIELD; schedule(selfId); return 0; }
int nanosleep(const timespec*a,timespec*b){ if(!LIVE) return (int)syscall(SYS_nanosleep,a,b); Thr&x=T[selfId]; x.st=CONDW; x.obj=&x; x.lk=nullptr; x.timed=true; x.deadline=vnow+a->tv_sec*1000000000ll+a->tv_nsec; schedule(selfId); return 0; }
int clock_nanosleep(clockid_t,int,const timespec*a,timespec*b){ return nanosleep(a,b); }
unsigned _ZNSt6thread20hardware_concurrencyEv(){ return g_hw; }
int64_t _ZNSt6chrono3_V212steady_clock3nowEv(){ if(LIVE) return vnow; timespec ts; clock_gettime(CLOCK_MONOTONIC,&ts); return ts.tv_sec*1000000000ll+ts.tv_nsec; }
int64_t _ZNSt6chrono3_V212system_clock3nowEv(){ if(LIVE) return vnow; timespec ts; clock_gettime(CLOCK_REALTIME,&ts); return ts.tv_sec*1000000000ll+ts.tv_nsec; }
// ---- Win32 API of shim/windows.h
void AcquireSRWLockExclusive(void*m){ if(LIVE) lkX(m); } void AcquireSRWLockShared(void*m){ if(LIVE) lkS(m); }
void ReleaseSRWLockExclusive(void*m){ if(LIVE) relX(m); } void ReleaseSRWLockShared(void*m){ if(LIVE) relS(m); }
void InitializeConditionVariable(void*c){}
int SleepConditionVariableSRW(void*c,void*m,unsigned long ms,unsigned long fl){ if(!LIVE) abort(); bool inf=(unsigned)ms==0xFFFFFFFFu; return !cwait(c,m,fl&1,!inf,vnow+(int64_t)ms*1000000); }
void WakeConditionVariable(void*c){ if(LIVE) cnotify(c,false); } void WakeAllConditionVariable(void*c){ if(LIVE) cnotify(c,true); }
}
// ---- happens-before race detection on plain accesses
struct Cell{ u64 key; u32 gen; u32 w[MAXT]; u32 r[MAXT]; unsigned char wm[MAXT], rm[MAXT]; void* wpc[MAXT]; };
static Cell* tab; static const size_t TS=1<<15; static u32 gen=1; static size_t used;
static Cell* cell(u64 k){ size_t h=(size_t)((k*0x9E3779B97F4A7C15ull)>>40)&(TS-1); for(size_t i=0;;i++){ Cell&c=tab[(h+i)&(TS-1)]; if(c.gen!=gen){ if(++used>TS*3/4){ fprintf(stderr,"race table full\n"); _exit(4);} memset(&c,0,sizeof c); c.gen=gen; c.key=k; return &c; } if(c.key==k) return &c; } }
static bool raceOn=true; struct NoR{const char*b;const char*e;}; static std::vector<NoR>* nor;
static void acc(u64 k,unsigned char mask,bool wr,void*pc,u64 addr){
	Cell*c=cell(k); int t=selfId; Thr&x=T[t]; u32 clk=x.vc.c[t];
	for(int u=0;u<nT;u++) if(u!=t){
		if((c->wm[u]&mask)&&c->w[u]>x.vc.c[u]) goto race; if(wr&&(c->rm[u]&mask)&&c->r[u]>x.vc.c[u]) goto race; }
	if(wr){ if(c->w[t]!=clk){c->w[t]=clk;c->wm[t]=mask;} else c->wm[t]|=mask; c->wpc[t]=pc; } else { if(c->r[t]!=clk){c->r[t]=clk;c->rm[t]=mask;} else c->rm[t]|=mask; }
	return;
race: for(auto&n:*nor) if((const char*)addr>=n.b&&(const char*)addr<n.e) return;
	if(!raceOn) { racesIgnored++; return; }
	Dl_info di; const char* base=nullptr; if(dladdr(pc,&di)) base=(const char*)di.dli_fbase; 
	sched_fail("data race: thread %d %s memory that another thread accesses without synchronisation (code offset 0x%llx)",t,wr?"writes":"reads",(unsigned long long)((char*)pc-base));
}
static void access_(const void*p,size_t n,bool wr,void*pc){ if(!LIVE||!n) return; u64 a=(u64)p,e=a+n; if(n>4096) e=a+4096; while(a<e){ u64 k=a>>3; unsigned o=a&7; unsigned l=8-o; if(l>e-a) l=e-a; acc(k,(unsigned char)(((1u<<l)-1)<<o),wr,pc,a); a+=l; } }
static void clearRange(const void*p,size_t n){ if(!LIVE||!n) return; if(n>65536) n=65536; for(u64 k=(u64)p>>3;k<=((u64)p+n-1)>>3;k++){ size_t h=(size_t)((k*0x9E3779B97F4A7C15ull)>>40)&(TS-1); for(size_t i=0;;i++){ Cell&c=tab[(h+i)&(TS-1)]; if(c.gen!=gen) break; if(c.key==k){ u32 g=c.gen; memset(c.w,0,sizeof c.w); memset(c.r,0,sizeof c.r); memset(c.wm,0,MAXT); memset(c.rm,0,MAXT); break; } } if(ats) ats->erase(k<<3); } }
extern "C" void sched_norace(const void*p,unsigned n){ nor->push_back({(const char*)p,(const char*)p+n}); }
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){} void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
#define RW(n) void __tsan_read##n(void*p){access_(p,n,false,PC);} void __tsan_write##n(void*p){access_(p,n,true,PC);} void __tsan_unaligned_read##n(void*p){access_(p,n,false,PC);} void __tsan_unaligned_write##n(void*p){access_(p,n,true,PC);} \
 void __tsan_volatile_read##n(void*p){access_(p,n,false,PC);} void __tsan_volatile_write##n(void*p){access_(p,n,true,PC);} void __tsan_read_write##n(void*p){access_(p,n,true,PC);} void __tsan_unaligned_read_write##n(void*p){access_(p,n,true,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,size_t n){access_(p,n,false,PC);} void __tsan_write_range(void*p,size_t n){access_(p,n,true,PC);}
void __tsan_vptr_update(void**p,void*v){ access_(p,8,true,PC);} void __tsan_vptr_read(void**p){access_(p,8,false,PC);}
void* __tsan_memcpy(void*d,const void*s,size_t n){ access_(s,n,false,PC); access_(d,n,true,PC); return memcpy(d,s,n);} void* __tsan_memmove(void*d,const void*s,size_t n){ access_(s,n,false,PC); access_(d,n,true,PC); return memmove(d,s,n);} void* __tsan_memset(void*d,int v,size_t n){ access_(d,n,true,PC); return memset(d,v,n);}
}
// ---- atomics
static At& atm(volatile void*p){ return (*ats)[(u64)p]; }
static bool isAcq(int mo){ return mo==1||mo==2||mo==4||mo==5; } static bool isRel(int mo){ return mo==3||mo==4||mo==5; }
static void aload(volatile void*p,int mo){ if(!LIVE) return; At&a=atm(p); Thr&x=T[selfId]; if(isAcq(mo)) x.vc.join(a.vc); else x.pendAcq.join(a.vc); }
static void astore(volatile void*p,int mo){ if(!LIVE) return; At&a=atm(p); Thr&x=T[selfId]; if(isRel(mo)){ a.vc=x.vc; tick(); } else if(x.hasRel) a.vc=x.fenceRel; else a.vc.clear(); }
static void armw(volatile void*p,int mo){ if(!LIVE) return; At&a=atm(p); Thr&x=T[selfId]; if(isAcq(mo)) x.vc.join(a.vc); else x.pendAcq.join(a.vc); if(isRel(mo)){ a.vc.join(x.vc); tick(); } else if(x.hasRel) a.vc.join(x.fenceRel); }
static const volatile void* lastSpin[MAXT]; static int spinN[MAXT];
// a thread that keeps issuing the same atomic operation spins: let the others run
static void apoint(const volatile void*p){ if(!LIVE) return; int t=selfId; if(lastSpin[t]==p){ if(++spinN[t]>12){ spinN[t]=0; T[t].st=YIELD; schedule(t); return; } } else { lastSpin[t]=p; spinN[t]=0; } point(); }
extern "C" {
#define ATM(B,TY) \
TY __tsan_atomic##B##_load(const volatile TY*p,int mo){ apoint(p); aload((volatile void*)p,mo); return __atomic_load_n(p,5);} \
void __tsan_atomic##B##_store(volatile TY*p,TY v,int mo){ apoint(p); astore(p,mo); __atomic_store_n(p,v,5);} \
TY __tsan_atomic##B##_exchange(volatile TY*p,TY v,int mo){ apoint(p); armw(p,mo); return __atomic_exchange_n(p,v,5);} \
TY __tsan_atomic##B##_fetch_add(volatile TY*p,TY v,int mo){ apoint(p); armw(p,mo); return __atomic_fetch_add(p,v,5);} \
TY __tsan_atomic##B##_fetch_sub(volatile TY*p,TY v,int mo){ apoint(p); armw(p,mo); return __atomic_fetch_sub(p,v,5);} \
TY __tsan_atomic##B##_fetch_and(volatile TY*p,TY v,int mo){ apoint(p); armw(p,mo); return __atomic_fetch_and(p,v,5);} \
TY __tsan_atomic##B##_fetch_or(volatile TY*p,TY v,int mo){ apoint(p); armw(p,mo); return __atomic_fetch_or(p,v,5);} \
TY __tsan_atomic##B##_fetch_xor(volatile TY*p,TY v,int mo){ apoint(p); armw(p,mo); return __atomic_fetch_xor(p,v,5);} \
TY __tsan_atomic##B##_fetch_nand(volatile TY*p,TY v,int mo){ apoint(p); armw(p,mo); return __atomic_fetch_nand(p,v,5);} \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY*p,TY*c,TY v,int mo,int fmo){ apoint(p); TY e=*c; bool ok=__atomic_compare_exchange_n(p,&e,v,false,5,5); if(ok) armw(p,mo); else { aload(p,fmo); *c=e; } return ok;} \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY*p,TY*c,TY v,int mo,int fmo){ return __tsan_atomic##B##_compare_exchange_strong(p,c,v,mo,fmo);} \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY*p,TY c,TY v,int mo,int fmo){ __tsan_atomic##B##_compare_exchange_strong(p,&c,v,mo,fmo); return c;}
ATM(8,uint8_t) ATM(16,uint16_t) ATM(32,uint32_t) ATM(64,uint64_t)
void __tsan_atomic_thread_fence(int mo){ if(!LIVE) return; Thr&x=T[selfId]; if(isAcq(mo)) x.vc.join(x.pendAcq); if(isRel(mo)){ x.fenceRel=x.vc; x.hasRel=true; tick(); } }
void __tsan_atomic_signal_fence(int){}
}
void* operator new(size_t n){ void*p=malloc(n?n:1); if(!p) abort(); clearRange(p,n); return p; } void operator delete(void*p)noexcept{ free(p);} void operator delete(void*p,size_t)noexcept{ free(p);} 
void* operator new[](size_t n){ void*p=malloc(n?n:1); if(!p) abort(); clearRange(p,n); return p; } void operator delete[](void*p)noexcept{ free(p);} void operator delete[](void*p,size_t)noexcept{ free(p);}
// ---- harness API
struct S{std::string n;void(*f)();}; static std::vector<S>& scns(){ static std::vector<S>*v=new std::vector<S>; return *v; }
static int reqSpur=0, reqBound=-1; 
extern "C" { void sched_register(const char*n,void(*f)()){ scns().push_back({n,f}); } void sched_set_hw(unsigned n){ g_hw=n; } void sched_op(){ nOps++; } void sched_outcome(u64 h){ if(outcomes->size()<1000000) outcomes->insert(h);} void sched_check(){ nChecks++; } int sched_thorough(){ return thorough; } int sched_self(){ return selfId; }
void sched_bounds(int p,int s){ reqBound=p; spurBudget=s; bound=p; }
void sched_sample(const char* f,...){ if(samples->size()>=4) return; char b[400]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); samples->push_back(b); } }
static void runOnce(const S&s){
	nT=1; memset(&T[0],0,sizeof(Thr)); T[0].st=RUN; T[0].vc.c[0]=1; locks->clear(); ats->clear(); nor->clear(); pts.clear(); pos=0; vnow=1000000000; nStep=0; consecTimeouts=0; spurBudget=0; gen++; used=0; cur=0; memset(lastSpin,0,sizeof lastSpin); memset(spinN,0,sizeof spinN);
	if(trail){ strncpy(trail->scn,s.n.c_str(),63); trail->execs=nExec; trail->n=0; }
	selfId=0; active=true; s.f(); active=false;
	for(int i=1;i<nT;i++) if(T[i].st!=DONE) sched_fail("a thread is still alive after its pool was destroyed");
}
static const int KF=3;
int main(int argc,char**argv){
	locks=new std::map<void*,Lk>; ats=new Ats; states=new std::unordered_set<u64>; outcomes=new std::unordered_set<u64>; samples=new std::vector<std::string>; per=new std::map<std::string,u64>; notes=new std::map<std::string,u64>; nor=new std::vector<NoR>; tab=(Cell*)calloc(TS,sizeof(Cell)); t0=rnow();
	const char* only=nullptr; const char* rep=nullptr; int fb=-1;
	for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--shard") sscanf(argv[++i],"%d/%d",&shardI,&shardN); else if(a=="--tier") thorough=!strcmp(argv[++i],"thorough"); else if(a=="--stats") statsF=argv[++i]; else if(a=="--scenario") only=argv[++i]; else if(a=="--replay") rep=argv[++i]; else if(a=="--deadline") deadline=rnow()+atof(argv[++i]); else if(a=="--bound") fb=atoi(argv[++i]);
		else if(a=="--list"){ for(auto&s:scns()) puts(s.n.c_str()); return 0; }
		else if(a=="--trail"){ int fd=open(argv[++i],O_RDWR|O_CREAT|O_TRUNC,0644); if(ftruncate(fd,sizeof(Trail))){} trail=(Trail*)mmap(0,sizeof(Trail),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); } }
	if(rep){ for(auto&s:scns()) if(!only||s.n==only){ scn=s.n.c_str(); const char*p=rep; while(*p){ prefix.push_back(strtol(p,(char**)&p,10)); if(*p==',')p++; } runOnce(s); break; } puts("replay: no violation"); return 0; }
	for(auto&s:scns()){ if(only&&s.n!=only) continue; scn=s.n.c_str(); prefix.clear(); prefixSig.clear(); u64 e0=nExec; bool stop=false; 
		// determinism self-check: the first execution twice
		runOnce(s); { std::vector<u64> g; std::vector<int> c; for(auto&p:pts){ g.push_back(p.sig); c.push_back(p.pick);} prefix=c; prefixSig=g; runOnce(s); if(pts.size()!=g.size()){ fprintf(stderr,"sched: nondeterministic scenario %s\n",scn); _exit(4);} prefix.clear(); prefixSig.clear(); }
		while(!stop){
			runOnce(s); if(fb>=0) bound=fb;
			{ // count once: executions without schedule deviation are repeated by every shard
				u64 h=7; int w=0; for(size_t i=0;i<pts.size()&&w<KF;i++){ if(pts[i].data||pts[i].pick) h=hm(h,i*31+pts[i].pick+1); if(!pts[i].data&&pts[i].pick) w+=pts[i].cost[pts[i].pick]>0?KF:1; } if(w>=KF||(int)(h%shardN)==shardI) nExec++; }
			// backtrack
			std::vector<int> cb(pts.size()); int c=0; for(size_t i=0;i<pts.size();i++){ cb[i]=c; c+=pts[i].cost[pts[i].pick]; }
			// work is shared out at the first preemption, or else at the KF-th deviation that costs nothing
			std::vector<int> w(pts.size()+1,0); for(size_t i=0;i<pts.size();i++) w[i+1]=w[i]+(!pts[i].data&&pts[i].pick?(pts[i].cost[pts[i].pick]>0?KF:1):0);
			std::vector<u64> dh(pts.size()+1,7); for(size_t i=0;i<pts.size();i++) dh[i+1]=pts[i].data||pts[i].pick?hm(dh[i],i*31+pts[i].pick+1):dh[i];
			bool found=false; for(size_t i=pts.size();i-->0&&!found;){ for(int j=pts[i].pick+1;j<pts[i].n;j++){ if(cb[i]+pts[i].cost[j]>bound) continue;
				if(!pts[i].data&&w[i]<KF&&w[i]+(pts[i].cost[j]>0?KF:1)>=KF){ if((int)(hm(hm(dh[i],i*31+7),j)%shardN)!=shardI) continue; }
				prefix.clear(); prefixSig.clear(); for(size_t k=0;k<i;k++){ prefix.push_back(pts[k].pick); prefixSig.push_back(pts[k].sig);} prefix.push_back(j); found=true; break; } }
			if(!found) stop=true; if((nExec&15)==0&&rnow()>deadline){ capped=true; (*notes)[std::string("capped:")+s.n]++; stop=true; } }
		(*per)[s.n+" [preemptions<="+std::to_string(bound)+"]"]+=nExec-e0; }
	dump(nullptr); return 0;
}
#include <typeinfo>
extern "C" bool _ZNKSt9type_infoeqERKS_(const std::type_info*a,const std::type_info*b){ return a->name()==b->name()||(a->name()[0]!='*'&&!strcmp(a->name(),b->name())); }
