// ring buffer under all schedules: 1-2 producer threads, the main thread consumes
#include "nn.hpp"
#include "nntl/interface/threads/bgworkers.h"
#include "nntl/utils/data_buffer.h"
#include "sched.hpp"
#include <thread>
using namespace nntl;
typedef double real_t; static bool TH(){ return sched_thorough()!=0; }
template<class V> static void ring(){ typedef utils::DataBuffer<real_t,V> Buf; int P=1+sched_choose(2); int cap=2+sched_choose(2); int want=1+sched_choose(2); sched_bounds(P==1?(TH()?5:3):(TH()?3:2),0);
	real_t mem[4]={0,0,0,0}; Buf b(mem,cap); int made[2]={0,0};
	auto prod=[&b,&made,cap](int id)noexcept{ for(int k=0;k<2;k++){ size_t r=b._as_should_work(2); if(r>(size_t)cap) sched_fail("claim of %d in a buffer of %d",(int)r,cap); if(!r) continue; real_t v[4]; for(size_t i=0;i<r;i++) v[i]=100*(id+1)+ ++made[id]; b._as_done(v,r); } };
	std::thread t0(prod,0); std::thread t1; if(P==2) t1=std::thread(prod,1);
	int last[2]={0,0}; int got=0; uint64_t h=0; auto take=[&](int n){ auto br=b.acquire_data(n); sched_op(); if(!br.acquired()){ h=h*3+1; return false; } int n1=(int)br.n1,n2=br.isTwoArrays()?(int)br.n2:0; CCHECK(n1+n2==n,"range size"); 
		for(int i=0;i<n;i++){ real_t x=i<n1?br.ptr1[i]:br.ptr2[i-n1]; int id=(int)x/100-1, q=(int)x%100; CCHECK(id>=0&&id<P,"consumer got %g, which nobody produced",x); CCHECK(q==last[id]+1,"consumer got value %d of producer %d after value %d",q,id,last[id]); last[id]=q; got++; } b.release_data(br); h=h*3+2; return true; };
	for(int i=0;i<2;i++) take(want);
	t0.join(); if(P==2) t1.join();
	while(take(1)){} CCHECK(got==made[0]+made[1],"%d values were produced, %d delivered",made[0]+made[1],got); CCHECK(b.TestState(),"internal state"); sched_outcome(h*100+got); }
CSCENARIO(ring_spin){ ring<void>(); } CSCENARIO(ring_std){ ring<threads::std_sync_primitives>(); } CSCENARIO(ring_win){ ring<threads::win_sync_primitives>(); }
// the spin lock itself and its yielding guard
CSCENARIO(spinlock){ sched_bounds(TH()?6:4,0); threads::spin_lock l; int x=0, in=0; auto f=[&](int y)noexcept{ for(int i=0;i<2;i++){ if(y){ threads::lock_guard_yield g(l); in++; x++; if(in!=1) sched_fail("two threads are inside of a spin lock"); in--; } else { l.lock(); in++; x++; if(in!=1) sched_fail("two threads are inside of a spin lock"); in--; l.unlock(); } } }; std::thread a(f,0); f(1); a.join(); CCHECK(x==4,"lost update"); sched_op(); sched_outcome(x); }
