// thread pool: every schedule of small histories {construct, run|reduce ..., destroy}
#include "nn.hpp"
#include "nntl/interface/threads/workers.h"
#include "sched.hpp"
#include <map>
using namespace nntl;
typedef float real_t; typedef numel_cnt_t cnt_t;
template<class S> using Pool = threads::Workers<real_t, cnt_t, S>;
typedef typename Pool<threads::std_sync_primitives>::par_range_t rng_t;
typedef uint64_t rd_t;

struct Log { int hits[16]; int tidOf[16]; int calls; int osOf[8]; cnt_t part[8]; void clear(){ memset(this,0,sizeof *this); for(auto&t:tidOf)t=-1; for(auto&o:osOf)o=-1; } };

// note: hits[] cells are disjoint between parts if the partition is right; a wrong partition is also a data race
struct Body { Log* L; int hw; int salt; char pad[24];
	void operator()(const rng_t& r)const noexcept {
		int tid=(int)r.tid(); if(tid<0||tid>=hw) sched_fail("thread id %d is outside [0,%d)",tid,hw);
		if(L->osOf[tid]!=-1) sched_fail("two parts of one request got the same thread id %d",tid);
		L->osOf[tid]=sched_self(); L->part[tid]=r.cnt();
		if(r.end()!=r.offset()+r.cnt()) sched_fail("range end() != offset()+cnt()");
		for(cnt_t i=r.offset(); i<r.end(); ++i){ if(i<0||i>=16) sched_fail("index %d is outside of the requested range",(int)i); L->hits[i]+=1; L->tidOf[i]=tid; }
	}
};
static void verify(const Log&L, cnt_t cnt, int hw, unsigned useN, int used, const char* what){
	sched_op(); uint64_t o=hw*100+cnt;
	for(cnt_t i=0;i<16;i++) CCHECK(L.hits[i]==(i<cnt?1:0), "%s: index %d of %d processed %d times (threads=%d, useN=%u)",what,(int)i,(int)cnt,L.hits[i],hw,useN);
	int parts=0; for(int t=0;t<hw;t++) if(L.osOf[t]>=0){ parts++; if(t==0) CCHECK(L.osOf[0]==0,"%s: thread id 0 must be the calling thread",what); else CCHECK(L.osOf[t]!=0,"%s: worker id %d ran on the calling thread",what,t); for(int u=0;u<t;u++) CCHECK(L.osOf[u]!=L.osOf[t],"%s: two parts ran on one thread",what); o=o*7+t; }
	int lim = useN>1&&(int)useN<=hw ? (int)useN : hw;
	CCHECK(parts<=lim,"%s: %d threads were used, at most %d were allowed",what,parts,lim);
	CCHECK(cnt<2||parts== (cnt<lim?cnt:lim),"%s: %d threads used for %d items and %d threads",what,parts,(int)cnt,lim);
	if(used>=0) CCHECK(used==parts,"%s: reports %d threads used, but %d were",what,used,parts);
	for(int t=0;t<parts;t++) CCHECK(L.osOf[t]>=0,"%s: ids of the parts must be 0..%d",what,parts-1);
	for(int t=0;t<hw;t++) o=o*13+L.osOf[t]+1; sched_outcome(o);
}
template<class P> static void doRun(P& w,int hw,cnt_t cnt,unsigned useN,int style){
	Log L; L.clear(); thread_id_t used=77;
	Body b{&L,hw,0};
	if(style==0) w.run(b,cnt,useN,&used);                       // lvalue functor larger than the call wrapper's store
	else if(style==1) w.run([&L,hw](const rng_t& r)noexcept{ Body{&L,hw,0}(r); },cnt,useN,&used); // small rvalue lambda
	else w.run(Body{&L,hw,0},cnt,useN,&used);                    // large rvalue
	Log copy=L; verify(copy,cnt,hw,useN,(int)used,"run");
}
template<class P> static void doReduce(P& w,int hw,cnt_t cnt,unsigned useN){
	typedef typename P::template converter_reduce_data_t<real_t> conv;
	Log L; L.clear(); int finals=0; cnt_t parts=-1;
	real_t r=w.reduce([&L,hw](const rng_t& r)noexcept->rd_t{ Body{&L,hw,0}(r); real_t s=0; for(cnt_t i=r.offset();i<r.end();++i) s+=real_t(1<<i); return conv::to(s); }
		, [&finals,&parts](const rd_t* p,const cnt_t n)noexcept->real_t{ finals++; parts=n; real_t s=0; for(cnt_t i=0;i<n;++i) s+=conv::from(p[i]); return s; }, cnt, useN);
	Log copy=L; real_t ex=0; for(cnt_t i=0;i<cnt;i++) ex+=real_t(1<<i);
	if(useN!=1) verify(copy,cnt,hw,useN,-1,"reduce");
	CCHECK(r==ex,"reduce returned %g, expected %g (cnt=%d threads=%d useN=%u)",r,ex,(int)cnt,hw,useN);
	if(cnt>1&&useN!=1){ int n=0; for(int t=0;t<hw;t++) n+=copy.osOf[t]>=0; CCHECK(finals==1&&parts==n,"final reduction called %d times with %d partial results, expected 1 call with %d",finals,(int)parts,n); }
}

static bool TH(){ return sched_thorough()!=0; }
template<class S> static void life(){ int hw=2+sched_choose(2); sched_bounds(hw==2?(TH()?12:7):(TH()?4:3),TH()?2:1); sched_set_hw(hw); { Pool<S> w; CCHECK((int)w.cur_workers_count()==hw,"cur_workers_count"); CCHECK((int)Pool<S>::workers_count()==hw,"workers_count"); thread_id_t n=0; w.get_worker_threads(n); CCHECK((int)n==hw-1,"get_worker_threads reports %d",(int)n); sched_op(); } sched_op(); }
// one request of every kind/size/thread limit
template<class S> static void oneop(){ int hw=2+sched_choose(2); static const cnt_t cs[]={2,3,1,0,5}; int ci=sched_choose(5); cnt_t cnt=cs[ci]; unsigned un= cnt>1? sched_choose(3):0; int k=sched_choose(2); int st= k==0&&cnt==2&&un==0? sched_choose(3):1;
	bool deep = ci<2 && un==0 && st==1; if(hw==2) sched_bounds(TH()?7:4,1); else sched_bounds(TH()?(deep?3:2):(deep?2:1),(TH()&&deep)?0:!deep);
	sched_set_hw(hw);
	{ Pool<S> w; if(k==0) doRun(w,hw,cnt,un==0?0:un==1?2:hw+2,st); else doReduce(w,hw,cnt,un==0?0:un==1?2:1); } }
template<class S> static void twoops(){ int hw= 2+sched_choose(2); sched_bounds(hw==2?(TH()?7:5):(TH()?2:1),hw==2||TH()); sched_set_hw(hw); int k1=sched_choose(2),k2=sched_choose(2);
	{ Pool<S> w; cnt_t c1=3,c2=2; if(k1==0) doRun(w,hw,c1,0,1); else doReduce(w,hw,c1,0); if(k2==0) doRun(w,hw,c2,0,0); else doReduce(w,hw,c2,0); } }
template<class S> static void threeops(){ int hw=2+sched_choose(2); sched_bounds(hw==2?(TH()?5:3):(TH()?1:0),0); sched_set_hw(hw); int m=sched_choose(8);
	{ Pool<S> w; static const cnt_t cs[]={3,2,4}; for(int i=0;i<3;i++){ if((m>>i)&1) doReduce(w,hw,cs[i],i==1?2:0); else doRun(w,hw,cs[i],i==1?2:0,1); } } }
template<class S> static void fourthreads(){ sched_bounds(TH()?1:0,0); int hw=4; sched_set_hw(hw); int m=sched_choose(2); { Pool<S> w; if(m) doReduce(w,hw,4,0); else doRun(w,hw,4,0,1); } }
// the pool stays usable after its own diagnostics request
template<class S> static void denorm(){ sched_bounds(TH()?1:0,0); int hw=2+sched_choose(2); sched_set_hw(hw); { Pool<S> w; bool r=w.denormalsOnInAnyThread(); (void)r; sched_op(); doRun(w,hw,3,0,1); doReduce(w,hw,3,0);} }
typedef threads::std_sync_primitives SS; typedef threads::win_sync_primitives WS;
CSCENARIO(std_lifetime){ life<SS>(); } CSCENARIO(win_lifetime){ life<WS>(); }
CSCENARIO(std_oneop){ oneop<SS>(); } CSCENARIO(win_oneop){ oneop<WS>(); }
CSCENARIO(std_twoops){ twoops<SS>(); } CSCENARIO(win_twoops){ twoops<WS>(); }
CSCENARIO(std_threeops){ threeops<SS>(); } CSCENARIO(win_threeops){ threeops<WS>(); }
CSCENARIO(std_four){ fourthreads<SS>(); } CSCENARIO(win_four){ fourthreads<WS>(); }
CSCENARIO(std_denorm){ denorm<SS>(); } CSCENARIO(win_denorm){ denorm<WS>(); }
