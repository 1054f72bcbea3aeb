// Interfaces for harnesses that run layers / networks: the harness math engine (enumerated threads), a scripted random
// number generator (every draw comes from the harness) and the given inspector.
#pragma once
#include "mathx.hpp"
#include "nntl/utils.h"
#include "nntl/interfaces.h"
static std::function<double()> g_rng;            // next value in [0,1)
static std::function<ptrdiff_t(ptrdiff_t)> g_rngI; // next integer below the argument, if set
static uint64_t g_rngDraws=0; static std::function<void(uint64_t)> g_seed64;
inline double rng_next(){ g_rngDraws++; return g_rng?g_rng():0.5; }
template<class R> struct SRng final: public rng::rng_helper<R,ptrdiff_t,uint32_t,SRng<R>>{
	typedef rng::rng_helper<R,ptrdiff_t,uint32_t,SRng<R>> B; typedef R real_t; typedef FakeThreads<R> iThreads_t; typedef ptrdiff_t int_4_random_shuffle_t; typedef uint32_t int_4_distribution_t;
	static constexpr bool is_multithreaded=false; SRng()noexcept{} SRng(int)noexcept{} 
	template<class T> bool init_ithreads(T&,int=0)noexcept{ return true; } void seed(int)noexcept{} void seed64(uint64_t s)noexcept{ if(g_seed64) g_seed64(s); }
	ptrdiff_t gen_i(ptrdiff_t lt)noexcept{ if(g_rngI) return g_rngI(lt); ptrdiff_t k=(ptrdiff_t)(rng_next()*(double)lt); return k>=lt?lt-1:k; } uint32_t gen_int()noexcept{ return (uint32_t)(rng_next()*4294967295.0); }
	template<class T> T gen_f_norm()noexcept{ return (T)rng_next(); }
	void gen_vector(R*p,const numel_cnt_t n,const R a)noexcept{ for(numel_cnt_t i=0;i<n;i++) p[i]=R((rng_next()*2-1)*a); }
	void gen_vector(R*p,const numel_cnt_t n,const R neg,const R pos)noexcept{ for(numel_cnt_t i=0;i<n;i++) p[i]=R(neg+rng_next()*(pos-neg)); }
	void gen_vector_norm(R*p,const numel_cnt_t n)noexcept{ for(numel_cnt_t i=0;i<n;i++) p[i]=(R)rng_next(); }
	template<class T> void gen_vector_gtz(T*p,const numel_cnt_t n,const T a)noexcept{ for(numel_cnt_t i=0;i<n;i++) p[i]=(T)(rng_next()*a); }
};
template<class R,class Insp=inspector::dummy<R>> struct HI{ typedef R real_t; typedef FakeThreads<R> iThreads_t; typedef imem::imemmgr iMemmgr_t; typedef IMT<R> iMath_t; typedef SRng<R> iRng_t; typedef Insp iInspect_t; };
