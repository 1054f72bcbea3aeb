// asynchronous generator: every schedule of {init, requests, seed, deinit, init again, destroy} against its background workers
#include "nn.hpp"
#include "nntl/interface/_i_threads.h"
#include <set>
namespace mcr { static std::atomic<int> g_n{0};
struct Src{ int id,k=0; explicit Src(int){ id=g_n++; } void RandomInit(int){} void RandomInitByArray(const int*,int){} uint32_t BRandom(){ k++; return (uint32_t)id*40503u*65537u+(uint32_t)k*2654435761u; } double Random(){ return (id*1024+ ++k)/65536.; } float FRandom(){ return (float)Random(); } template<class T> double FPRandom(){ return Random(); } int IRandomX(int a,int){ return a; } }; }
namespace nntl { namespace rng { namespace _impl { template<typename A,typename R> struct AFRAND_MT_THR { static constexpr size_t bnd_gen_vector=4,bnd_gen_vector_gtz=4,bnd_gen_vector_norm=2,bnd_bernoulli_vector=4,bnd_normal_vector=1; }; } } }
#define NNTL_OVERRIDE_AFRANDOM_MT_THRESHOLDS
#include "nntl/interface/rng/afrand_as.h"
#include "sched.hpp"
using namespace nntl; static bool TH(){ return sched_thorough()!=0; }
struct OneThread: threads::_i_threads<double,numel_cnt_t>{ static thread_id_t workers_count()noexcept{ return 1; } template<class F> void run(F&&f,const range_t n,const thread_id_t=0,thread_id_t*pU=nullptr)noexcept{ if(pU)*pU=1; f(par_range_t(n)); } };
typedef rng::AFRand_as<double,mcr::Src,OneThread> AS;
struct Seen{ std::set<int> s; void take(const double*p,int n,double span,double ofs){ for(int i=0;i<n;i++){ double u=((p[i]-ofs)/span)*65536; long q=lround(u); CCHECK(fabs(u-q)<1e-6&&q>0&&(q&1023)>0,"a number that was never generated was delivered: %g",p[i]); CCHECK(s.insert((int)q).second,"the same random number was delivered twice"); } } };
static void reqs(AS&g,Seen&S,int kind,int n){ double b[16]; for(double&x:b) x=-77; switch(kind){ case 0: g.gen_vector_norm(b,n); S.take(b,n,1,0); break; case 1: g.gen_vector(b,n,2.); S.take(b,n,4,-2); break; case 2: g.gen_vector(b,n,-1.,3.); S.take(b,n,4,-1); break; case 3: g.normal_vector(b,n,100.,2.); for(int i=0;i<n;i++) CCHECK(fabs(b[i]-100)<20,"N(100,2) made %g",b[i]); break; } CCHECK(b[n]==-77,"wrote behind the end"); sched_op(); }
static void prog(int pre,int normal,int hist){ mcr::g_n=0; sched_set_hw(2); OneThread th; Seen S; { AS g(th,5); if(pre) g.preinit_additive_norm(pre); if(normal) g.preinit_additive_normal_distr(normal); CCHECK(g.init_rng(),"init_rng"); int k1=sched_choose(3),n1=1+sched_choose(4); if(normal&&!pre) k1=3; reqs(g,S,k1,n1); if(hist&1){ g.seed(9); } reqs(g,S,normal?3:0,2); if(hist&2){ g.deinit_rng(); reqs(g,S,0,2); g.preinit_additive_norm(1); CCHECK(g.init_rng(),"init_rng again"); reqs(g,S,1,2); } if(hist&4) g.deinit_rng(); uint64_t h=0; for(int x:S.s) h=h*31+x; sched_outcome(h); } }
CSCENARIO(as_uniform){ sched_bounds(TH()?3:2,0); prog(1,0,sched_choose(8)); }
CSCENARIO(as_normal){ sched_bounds(TH()?3:2,0); prog(0,1,sched_choose(2)*4); }
CSCENARIO(as_both){ sched_bounds(TH()?2:1,0); prog(1,1,sched_choose(8)); }
// two background workers that fill the buffer at the same time, out of scratch memory of their own; the requests come when they had time to
static void two(int nrm,int nor,int big,int drain=0){ mcr::g_n=0; sched_set_hw(3); OneThread th; Seen S; { AS g(th,5); if(nrm) g.preinit_additive_norm(nrm); if(nor) g.preinit_additive_normal_distr(nor); CCHECK(g.init_rng(),"init_rng"); std::this_thread::sleep_for(std::chrono::milliseconds(60)); if(big) reqs(g,S,nrm?(nor||drain||TH()?sched_choose(3):1):3,big); reqs(g,S,nrm?0:3,2); while(drain>0){ reqs(g,S,0,std::min(drain,15)); drain-=15; } uint64_t h=0; for(int x:S.s) h=h*31+x; sched_outcome(h); } }
CSCENARIO(as_two_uniform){ sched_bounds(2,0); two(14,0,TH()?4:0); }
CSCENARIO(as_two_drain){ sched_bounds(1,0); int n=sched_choose(2)?20:14; two(n,0,4,n*3-6); }
CSCENARIO(as_two_normal){ sched_bounds(TH()?2:1,0); two(0,9,4); }
CSCENARIO(as_two_both){ sched_bounds(1,0); two(7,7,2); }
