// background workers: every schedule of small histories {construct, add_task, exec, delete_tasks, sleep, destroy}
#include "nn.hpp"
#include "nntl/interface/threads/bgworkers.h"
#include "sched.hpp"
#include <time.h>
using namespace nntl;
static bool TH(){ return sched_thorough()!=0; }
template<class S> static int stdS(){ return std::is_same<S,threads::std_sync_primitives>::value; } // condition_variable_any makes more steps per wait
template<class S> using BG = threads::BgWorkers<S>;
static const threads::PriorityClass NC=threads::PriorityClass::threads_priority_no_change;


struct Task { std::atomic<int> calls{0}; std::atomic<bool> dead{false}; std::atomic<int> running{0}; int more; int nthr;
	struct Order{ std::atomic<int> check{0}; int last[4]={0}; }* ord=nullptr; int level=0; // last call on thread t: 1/2 high said no/yes, 3/4 low said no/yes
	Task(int m,int n):more(m),nthr(n){}
	bool operator()(const thread_id_t t)noexcept{
		if(dead) sched_fail("task runs after it was removed"); if((int)t<0||(int)t>=nthr) sched_fail("task got thread id %d of %d",(int)t,nthr);
		if(ord&&level==0&&ord->check&&ord->last[t]!=1&&ord->last[t]!=4) sched_fail("lower priority task ran on thread %d before the higher priority one had finished its work",(int)t);
		running++; int c=calls++; running--; bool again=c<more; if(ord) ord->last[t]=(level?1:3)+again; if(dead) sched_fail("task was removed while it was running"); return again; }
};
template<class P> static void doExec(P& w,int n){
	int runs[4]={0}; int os[4]={-1,-1,-1,-1}; 
	w.exec([&runs,&os,n](const thread_id_t t)noexcept{ if((int)t<0||(int)t>=n) sched_fail("exec got thread id %d of %d",(int)t,n); runs[t]++; os[t]=sched_self(); });
	sched_op(); uint64_t o=n; for(int i=0;i<n;i++){ CCHECK(runs[i]==1,"exec ran %d times on thread %d of %d",runs[i],i,n); CCHECK(os[i]>0,"exec ran on the caller"); for(int j=0;j<i;j++) CCHECK(os[i]!=os[j],"exec ran twice on one thread"); o=o*5+os[i]; } sched_outcome(o);
}
static void nap(int ms){ timespec ts{0,ms*1000000}; nanosleep(&ts,nullptr); }
// construct, (exec)*, destroy
template<class S> static void exec_only(){ int n=1+sched_choose(2); int k=sched_choose(3); sched_bounds(n==1?(TH()?6:4-stdS<S>()):(k<2?(TH()?3-stdS<S>():2-stdS<S>()):TH()?1:0),n==1); { BG<S> w(n,NC); CCHECK((int)w.workers_count()==n,"workers_count"); for(int i=0;i<k;i++) doExec(w,n); } sched_op(); }
// tasks are run while registered, never after delete_tasks() returned; exec works with tasks present
template<class S> static void tasks(){ int n=1+sched_choose(2); int more=sched_choose(2); int withExec=sched_choose(2); sched_bounds(n==1?(TH()?5:3-stdS<S>()):(TH()?2-stdS<S>():1-(stdS<S>()&&withExec)),0);
	Task t(more,n); { BG<S> w(n,NC); w.expect_tasks_count(1); w.add_task(t); CCHECK(w.tasks_count()==1,"tasks_count"); int spins=0; while(t.calls==0){ if(++spins>20) sched_fail("a registered task is never executed"); nap(11); } sched_op();
		if(withExec) doExec(w,n); w.delete_tasks(); CCHECK(t.running==0,"delete_tasks() returned while the task was running"); t.dead=true; CCHECK(w.tasks_count()==0,"tasks_count"); nap(25); sched_outcome(t.calls); if(withExec) doExec(w,n); } sched_op(); }
// priorities
template<class S> static void prio(){ int n=1+(TH()?sched_choose(2):0); int order=sched_choose(2); sched_bounds(n==1?(TH()?3:2):1,0);
	Task hi(1,n),lo(1,n); Task::Order od; hi.ord=lo.ord=&od; hi.level=1; { BG<S> w(n,NC); w.expect_tasks_count(2); if(order){ w.add_task(lo,0); w.add_task(hi,5);} else { w.add_task(hi,5); w.add_task(lo,0);} od.check=1; int spins=0; while(lo.calls==0||hi.calls==0){ if(++spins>30) sched_fail("a registered task is never executed (hi=%d lo=%d)",(int)hi.calls,(int)lo.calls); nap(11);} w.delete_tasks(); hi.dead=lo.dead=true; nap(15); sched_outcome(hi.calls*100+lo.calls); } sched_op(); }
// destruction with tasks still registered
template<class S> static void destroy_busy(){ int n=1+sched_choose(2); int ms=sched_choose(2)*11; sched_bounds(n==1?(TH()?6:4-stdS<S>()):(TH()?2:1),0); Task t(1,n); { BG<S> w(n,NC); w.add_task(t); if(ms) nap(ms); } t.dead=true; sched_op(); sched_outcome(t.calls); }
// timeout tuning from the main thread while workers are running
template<class S> static void tune(){ int n=1; sched_bounds(TH()?4:3,0); Task t(0,n); { BG<S> w(n,NC); w.set_task_wait_timeout(std::chrono::milliseconds(3)); w.add_task(t); int spins=0; while(t.calls==0){ if(++spins>20) sched_fail("a registered task is never executed"); nap(11);} w.delete_tasks(); t.dead=true; } sched_op(); }
typedef threads::std_sync_primitives SS; typedef threads::win_sync_primitives WS;
#define BOTH(x) CSCENARIO(std_##x){ x<SS>(); } CSCENARIO(win_##x){ x<WS>(); }
BOTH(exec_only) BOTH(tasks) BOTH(prio) BOTH(destroy_busy) BOTH(tune)
