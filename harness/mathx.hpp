// Math engine harness kit: the real math::MathN over a threading back end whose pieces are executed one at a time in
// an enumerated order (the pool's own schedules are P01's subject), every pool size, exactly sized temporary memory.
#pragma once
#ifndef NNTL_THRV
#define NNTL_THRV(x) ((x)<7?(x):7)   // dispatch thresholds, so that small matrices reach every implementation
#endif
#include "nn.hpp"
#include "mc.hpp"
#include "nntl/interface/_i_threads.h"
#include "nntl/interface/math/mathn.h"
#include "nntl/interface/imemmgr/imemmgr.h"
#include <functional>
#include <cfloat>
using namespace nntl; typedef vec_len_t VL;
extern "C" { void conf_region() __attribute__((weak)); void conf_piece(int) __attribute__((weak)); const char* conf_end() __attribute__((weak)); }
static int g_W=1; static int g_order=-1;   // -1: the order of the pieces is chosen for every operation; 0/1: first to last / last to first
 static uint64_t g_runs=0, g_pieces=0;
template<class R> struct FakeThreads: threads::_i_threads<R,numel_cnt_t>{
	typedef threads::_i_threads<R,numel_cnt_t> B; typedef typename B::par_range_t par_range_t; typedef typename B::range_t range_t; typedef typename B::reduce_data_t reduce_data_t;
	template<class T> using converter_reduce_data_t=typename B::template converter_reduce_data_t<T>;
	static thread_id_t workers_count()noexcept{ return (thread_id_t)g_W; } thread_id_t cur_workers_count()const noexcept{ return (thread_id_t)g_W; } static bool denormalsOnInAnyThread()noexcept{ return false; }
	struct ThreadObjIterator_t{}; static constexpr const char* name="FakeThreads";
	int* get_worker_threads(thread_id_t&n)noexcept{ n=0; return nullptr; }
	struct Pc{ numel_cnt_t o,c; int tid; };
	static std::vector<Pc> split(numel_cnt_t cnt,thread_id_t useN){ numel_cnt_t w=(useN>1&&useN<=(thread_id_t)g_W?useN:g_W)-1; numel_cnt_t k=cnt>w?w:cnt-1; numel_cnt_t tot=k+1,each=cnt/tot,res=cnt%tot,o=0; std::vector<Pc> v; for(numel_cnt_t i=0;i<k;i++){ numel_cnt_t n=each+(i<res?1:0); v.push_back({o,n,(int)i+1}); o+=n; } v.push_back({o,cnt-o,0}); return v; }
	template<class F> __attribute__((noinline)) static void piece(F&f,Pc p){ f(par_range_t(p.o,p.c,(thread_id_t)p.tid)); }
	template<class F> __attribute__((noinline)) static void pieceR(F&f,Pc p,reduce_data_t*o){ *o=f(par_range_t(p.o,p.c,(thread_id_t)p.tid)); }
	template<class G> static void perms(std::vector<Pc>&v,G&&g){ int n=(int)v.size(); g_runs++; g_pieces+=n; std::vector<int> id(n); for(int i=0;i<n;i++) id[i]=i;
		if(n>1&&g_order>=0){ if(g_order) std::reverse(id.begin(),id.end()); } else if(n>1){ if(mc::thorough()&&n<=3){ int f=n==2?2:6; int k=mc::choose(f); std::vector<int> rest=id; id.clear(); for(int m=n;m>0;m--){ int ff=1; for(int q=2;q<m;q++) ff*=q; id.push_back(rest[k/ff]); rest.erase(rest.begin()+k/ff); k%=ff; } }
			else { int k=mc::choose(2); if(k) std::reverse(id.begin(),id.end()); } }
		if(n>1&&conf_region) conf_region(); for(int i:id){ if(n>1&&conf_piece) conf_piece(i+1); g(v[i]); } if(n>1&&conf_end){ const char* m=conf_end(); if(m) mc::fail("pieces of a parallel operation conflict: %s",m); } }
	template<class F> void run(F&&f,const range_t cnt,const thread_id_t useN=0,thread_id_t* pU=nullptr)noexcept{
		if(cnt<=1||g_W<2){ if(pU)*pU=1; f(par_range_t(cnt)); return; }
		auto v=split(cnt,useN); if(pU)*pU=(thread_id_t)v.size(); perms(v,[&](Pc&p){ piece(f,p); }); }
	template<class F,class G> auto reduce(F&&f,G&&g,const range_t cnt,const thread_id_t useN=0)noexcept->decltype(g((const reduce_data_t*)nullptr,range_t(0))){
		if(cnt<=1||useN==1||g_W<2){ reduce_data_t r=f(par_range_t(cnt)); return g((const reduce_data_t*)&r,range_t(1)); }
		auto v=split(cnt,useN); std::unique_ptr<reduce_data_t[]> out(new reduce_data_t[v.size()]); reduce_data_t* o=out.get(); perms(v,[&](Pc&p){ pieceR(f,p,o+p.tid); }); return g((const reduce_data_t*)out.get(),range_t(v.size())); }
};
template<class R> using IMT=math::MathN<R,FakeThreads<R>,imem::imemmgr>;
template<class R> using Mx=math::smatrix_deform<R>;
// ---- matrices
template<class R,class F> inline Mx<R> mk(int r,int c,bool bias,bool bir,F&&f){ Mx<R> m; m.set_batchInRow(bir); if(bias) m.will_emulate_biases(); if(!m.resize(VL(r),VL(c))) mc::fail("harness: resize"); for(int j=0;j<c;j++) for(int i=0;i<r;i++) m.set(VL(i),VL(j),(R)f(i,j)); return m; }
template<class R> inline Mx<R> mkj(int r,int c,bool bias=false,bool bir=false){ return mk<R>(r,c,bias,bir,[](int,int){ return R(-77); }); }
// value patterns: n elements, pattern p, element k
static const int NPAT=5;
inline double pat(int p,int k){ switch(p){ case 0: return k+1; case 1: return ((k*5)%7)-3; case 2: return (k*k+k/3)%2; case 3: return 4-k; case 4: return ((k%3)-1)*(1+(k%2)); } return 0; }
struct Cont{ int p=0; long code=-1; int base=3; int n=0; const double* al; double operator()(int k)const{ if(code<0) return pat(p,k); long c=code; for(int i=0;i<k;i++) c/=base; return al[c%base]; } };
static const double AL3[]={-1,0,2}; static const double AL2[]={0,1};
// every content over the alphabet for at most `full` elements, the patterns otherwise
inline Cont cont(int n,int full=4,const double* al=AL3,int base=3){ Cont c; c.n=n; c.al=al; c.base=base; long tot=1; if(n<=full) for(int i=0;i<n;i++) tot*=base; else tot=0; int k=mc::choose(int(tot+NPAT)); if(k<NPAT) c.p=k; else c.code=k-NPAT; return c; }
inline Cont contp(){ Cont c; c.p=mc::choose(NPAT); return c; }
template<class R> inline std::vector<R> snap(const math::smatrix<R>&m){ return std::vector<R>(m.data(),m.data()+m.numel()); }
template<class T> inline bool sameb(const T&a,const T&b){ return memcmp(&a,&b,sizeof(T))==0||(a==b); }
static std::string g_ctx;
inline void ctx(const char*f,...){ char b[400]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); g_ctx=b; }
// matrix dimensions that are enumerated
// (rows first, then columns: besides the small ones a long and a wide shape, 67 x 1, 67 x 2, 2 x 67)
inline int dim(){ static const int q[]={1,2,3,4,5,9,67}, t[]={1,2,3,4,5,6,7,8,11,17,67}; static size_t at0=~size_t(0); static int prev=0; static uint64_t run=0; auto&C=mc::C(); if(run!=C.runno){ run=C.runno; prev=0; } bool second=prev>0&&C.pos==at0; if(second&&prev==67){ prev=0; return 1+mc::choose(2); }
	bool big=!second||prev==2; int n=mc::thorough()?10:6; int k=mc::choose(n+(big?1:0)); int v=mc::thorough()?t[k]:q[k]; prev=second?0:v; at0=C.pos; return v; }
// ---- implementations of one operation
template<class IM> struct Var{ const char* name; int mt; std::function<void(IM&)> f; std::function<numel_cnt_t(IM&)> need; };
#define VAR(n,mt,...) Var<IM>{n,mt,[&](IM&im){ __VA_ARGS__; },nullptr}
#define VARN(n,mt,need_,...) Var<IM>{n,mt,[&](IM&im){ __VA_ARGS__; },[&](IM&im)->numel_cnt_t{ return need_; }}
static const char* g_var="";
template<class IM> inline void exec(const std::vector<Var<IM>>& vs){
	int k=mc::choose((int)vs.size()); const Var<IM>&v=vs[k]; g_var=v.name; g_W=1; if(v.mt){ static const int ws[]={1,2,3,4}; g_W=v.mt==2?2+mc::choose(3):ws[mc::choose(4)]; }
	IM im; numel_cnt_t need=v.need?v.need(im):0; im.preinit(need); if(!im.init()) mc::fail("harness: init");
	v.f(im); mc::op(); mc::sample("%s %s threads=%d %s",mc::C().scn,v.name,g_W,g_ctx.c_str());
	if(need){ auto p=im._istor_alloc(need); mc::C().checks++; if(!p) mc::fail("%s: temporary memory not returned | %s",v.name,g_ctx.c_str()); im._istor_free(p,need); }
	uint64_t h=mc::hbytes(mc::C().scn,strlen(mc::C().scn)); for(size_t i=0;i<mc::C().pos;i++) h=mc::hmix(h,mc::C().pick[i]); mc::state(h);
}
inline bool near(double a,double b,double tol){ if(a==b) return true; if(std::isnan(a)||std::isnan(b)) return std::isnan(a)&&std::isnan(b); return std::fabs(a-b)<=tol*(1+std::max(std::fabs(a),std::fabs(b))); }
// compares all elements of m with e(i,j); tol 0: exact
template<class M,class F> inline void cmpM(const M&m,F&&e,double tol=0,const char* what="result"){ uint64_t h=7; for(VL j=0;j<m.cols();j++) for(VL i=0;i<m.rows();i++){ double g=(double)m.get(i,j), x=(double)(typename M::value_type)e((int)i,(int)j); mc::C().checks++; float q=(float)g; h=mc::hmix(h,mc::hbytes(&q,4)); bool ok=tol==0?(g==x||(std::isnan(g)&&std::isnan(x))):near(g,x,tol); if(!ok) mc::fail("%s: %s element (%d,%d) is %.9g, must be %.9g (%d threads) | %s",g_var,what,(int)i,(int)j,g,x,g_W,g_ctx.c_str()); } mc::outcome(h); }
template<class T,class F> inline void cmpV(const T* v,int n,F&&e,double tol=0,const char* what="result"){ uint64_t h=7; for(int i=0;i<n;i++){ double g=(double)v[i],x=(double)e(i); mc::C().checks++; float q=(float)g; h=mc::hmix(h,mc::hbytes(&q,4)); bool ok=tol==0?(g==x||(std::isnan(g)&&std::isnan(x))):near(g,x,tol); if(!ok) mc::fail("%s: %s [%d] is %.9g, must be %.9g (%d threads) | %s",g_var,what,i,g,x,g_W,g_ctx.c_str()); } mc::outcome(h); }
inline void cmpS(double g,double x,double tol=0,const char* what="result"){ mc::C().checks++; float q=(float)g; mc::outcome(mc::hbytes(&q,4)); bool ok=tol==0?(g==x||(std::isnan(g)&&std::isnan(x))):near(g,x,tol); if(!ok) mc::fail("%s: %s is %.12g, must be %.12g (%d threads) | %s",g_var,what,g,x,g_W,g_ctx.c_str()); }
template<class R> inline void same(const math::smatrix<R>&m,const std::vector<R>&s,const char* what){ mc::C().checks++; if((size_t)m.numel()!=s.size()) mc::fail("%s: %s changed size | %s",g_var,what,g_ctx.c_str()); for(size_t i=0;i<s.size();i++) if(!sameb(m.data()[i],s[i])) mc::fail("%s: %s must not change, but element %zu did (%d threads) | %s",g_var,what,i,g_W,g_ctx.c_str()); }
#define BOTH(name) template<class R> static void body_##name(); static void both_##name(){ if(mc::choose(2)) body_##name<double>(); else body_##name<float>(); } static mc::Reg reg_##name(#name,both_##name); template<class R> static void body_##name()
// heap vector with exact bounds (address sanitizer)
template<class T> struct Vec{ T*p; int n; Vec(int n_,T v=T(-77)):p((T*)malloc(sizeof(T)*(n_?n_:1))),n(n_){ for(int i=0;i<n;i++)p[i]=v; } ~Vec(){ free(p); } operator T*(){ return p; } T& operator[](int i){ return p[i]; } };
int main(int c,char**v){ return mc::run_main(c,v); }
