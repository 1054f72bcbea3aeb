// Random number generators: every generator wrapper over a scripted source of randomness, every pool size and piece order.
#include "mathx.hpp"
#include "nntl/interface/rng/afrand.h"
#include "nntl/interface/rng/cstd.h"
#include "nntl/interface/rng/distr_normal_naive.h"
namespace mcr {
struct Log{ std::vector<std::vector<double>> d; std::vector<std::vector<uint32_t>> b; std::vector<int> user; int mode=0; }; static Log g_log; static int g_piece=0; static bool g_reg=false; static int g_scr=0; static int g_fixed=0;
struct Src{ int id; uint64_t key=0; int k=0; 
	explicit Src(int s){ id=(int)g_log.d.size(); g_log.d.emplace_back(); g_log.b.emplace_back(); g_log.user.push_back(0); RandomInit(s); }
	void RandomInit(int s){ key=(uint32_t)s; k=0; } void RandomInitByArray(const int*a,int n){ key=0x5000; for(int i=0;i<n;i++) key=key*1000003u+(uint32_t)a[i]+17; k=0; }
	void use(){ if(g_reg){ int&u=g_log.user[id]; if(u&&u!=g_piece) mc::fail("generator %d is used by pieces %d and %d of one parallel operation",id,u-1,g_piece-1); u=g_piece; } }
	uint32_t raw(){ use(); uint64_t z=(key+1)*0x9E3779B97F4A7C15ull+(uint64_t)(++k)*0xD1B54A32D192ED03ull; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return (uint32_t)((z^(z>>31))>>32); }
	uint32_t BRandom(){ static const uint32_t P[]={0u,0xffffffffu,1u,0x80000000u,0x7fffffffu}; uint32_t r=raw(); if(g_scr==1) r=P[(k+id)%5]; g_log.b[id].push_back(r); return r; }
	template<class T> T FP(){ static const double P[]={0,1./(1<<24),.25,.5,.75,1-1./(1<<24)}; double r; uint32_t z=raw(); if(g_scr>=10) r=P[((g_scr-10)/(int)(pow(6,(k-1)%4)))%6]; else if(g_scr==1) r=P[(k+id*2)%6]; else r=std::is_same<T,float>::value?(z>>8)*(1./16777216.):z*(1./4294967296.); g_log.d[id].push_back(r); return (T)r; }
	double Random(){ return FP<double>(); } float FRandom(){ return FP<float>(); }
	template<class T> std::enable_if_t<std::is_same<T,float>::value,float> FPRandom(){ return FP<float>(); } template<class T> std::enable_if_t<!std::is_same<T,float>::value,double> FPRandom(){ return FP<double>(); }
	int IRandomX(int a,int b){ if(b<a) return AFog::GEN_ERROR; uint32_t z=raw(); if(g_scr==2) z=(uint32_t)g_fixed; g_log.b[id].push_back(z); return a+(int)(((uint64_t)z*(uint64_t)((int64_t)b-a+1))>>32); } int IRandom(int a,int b){ return IRandomX(a,b); }
};
struct Src2: Src{ using Src::Src; };
}
namespace nntl { namespace rng { namespace _impl { template<typename A,typename R> struct AFRAND_MT_THR; } } }
#define NNTL_OVERRIDE_AFRANDOM_MT_THRESHOLDS
namespace nntl { namespace rng { namespace _impl { template<typename A,typename R> struct AFRAND_MT_THR { static constexpr size_t bnd_gen_vector=4,bnd_gen_vector_gtz=5,bnd_gen_vector_norm=6,bnd_bernoulli_vector=4,bnd_normal_vector=5; }; } } }
#include "nntl/interface/rng/afrand_mt.h"
extern "C" { void conf_region(){ mcr::g_reg=true; for(auto&u:mcr::g_log.user) u=0; } void conf_piece(int i){ mcr::g_piece=i; } const char* conf_end(){ mcr::g_reg=false; return nullptr; } }
using namespace mcr; static std::string g_h; static void H(const char*f,...){ char b[240]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); g_h+=b; }
#define CK(c,f,...) CHECK(c,f " | %s",##__VA_ARGS__,g_h.c_str())
template<class R> using TH=FakeThreads<R>; template<class R> using MT=rng::AFRand_mt<R,Src,TH<R>>; template<class R> using ST=rng::AFRand<R,Src>;
static void resetLog(){ g_log=Log(); }
static std::vector<double> drawn(){ std::vector<double> v; for(auto&d:g_log.d) v.insert(v.end(),d.begin(),d.end()); return v; }
static void forget(){ for(auto&d:g_log.d) d.clear(); for(auto&d:g_log.b) d.clear(); }
// what is produced: the exact image of the draws, each draw used once, nothing but the asked elements written
template<class R,class F> static void judge(const std::vector<R>&o,int n,F map,double lo,double hi,const char*w){ auto d=drawn(); CK((int)d.size()==n,"%s: %d draws for %d values",w,(int)d.size(),n); std::vector<double> e; for(double x:d) e.push_back((double)map(x)); std::vector<double> g(o.begin(),o.begin()+n); for(int i=0;i<n;i++) CK(g[i]>=lo&&g[i]<=hi,"%s: element %d is %.17g, outside [%g,%g]",w,i,g[i],lo,hi); std::sort(e.begin(),e.end()); std::sort(g.begin(),g.end()); double sc=std::max(fabs(lo),fabs(hi)); for(int i=0;i<n;i++) CK(fabs(e[i]-g[i])<=4*std::numeric_limits<R>::epsilon()*sc||!(std::isfinite(sc)),"%s: value %.17g where the draws make %.17g",w,g[i],e[i]); for(size_t i=n;i<o.size();i++) CK((double)o[i]==-77,"%s: wrote behind the end",w); uint64_t h=n; for(double x:g) h=h*31+(uint64_t)(int64_t)(x*4096); mc::outcome(h); }
template<class R,class G> static void uniforms(G&g,int n,int var,double a,double b){ auto out=[&]{ return std::vector<R>(n+3,R(-77)); }; auto o=out(); forget(); R A=(R)a,B=(R)b;
	switch(var){ case 0: g.gen_vector(o.data(),n,A); judge<R>(o,n,[&](double x){ return 2*(double)A*x-(double)A; },-(double)A,(double)A,"gen_vector(a)"); break;
	case 1: g.gen_vector(o.data(),n,-A,B); judge<R>(o,n,[&](double x){ return ((double)B+(double)A)*x-(double)A; },-(double)A,(double)B,"gen_vector(neg,pos)"); break;
	case 2: g.gen_vector_norm(o.data(),n); judge<R>(o,n,[&](double x){ return x; },0,1,"gen_vector_norm"); break;
	case 3: g.gen_vector_gtz(o.data(),n,A); judge<R>(o,n,[&](double x){ return x*(double)A; },0,(double)A,"gen_vector_gtz"); break;
	case 4: { std::vector<int> q(n+3,-77); int I=1+(int)(a*4); g.gen_vector_gtz(q.data(),n,I); judge<int>(q,n,[&](double x){ return (int)(x*I); },0,I-1,"gen_vector_gtz<int>"); break; }
	case 5: { double p=b; R P=(R)p; g.bernoulli_vector(o.data(),n,P,A,-B); judge<R>(o,n,[&](double x){ return x<(double)P?(double)A:-(double)B; },-1e9,1e9,"bernoulli_vector"); break; }
	case 6: { R P=(R)b; g.binary_vector(o.data(),n,P); judge<R>(o,n,[&](double x){ return x<(double)P?1.:0.; },0,1,"binary_vector"); break; }
	case 7: { R v=g.gen_f(A); judge<R>(std::vector<R>(1,v),1,[&](double x){ return (double)A*x; },0,(double)A,"gen_f"); break; }
	case 8: { R v=(R)g.template gen_f_norm<R>(); judge<R>(std::vector<R>(1,v),1,[&](double x){ return x; },0,1,"gen_f_norm"); break; } } mc::op(); }
template<class R> static void uni_mt(int n,int var,double a,double b){ TH<R> th; resetLog(); MT<R> g(th,5); uniforms<R>(g,n,var,a,b);
	auto out=[&]{ return std::vector<R>(n+3,R(-77)); }; R A=(R)a,B=(R)b; for(int mt=0;mt<2;mt++){ auto o=out(); forget();
		switch(var){ case 0: mt?g.gen_vector_mt(o.data(),n,A):g.gen_vector_st(o.data(),n,A); judge<R>(o,n,[&](double x){ return 2*(double)A*x-(double)A; },-(double)A,(double)A,mt?"gen_vector_mt(a)":"gen_vector_st(a)"); break;
		case 1: mt?g.gen_vector_mt(o.data(),n,-A,B):g.gen_vector_st(o.data(),n,-A,B); judge<R>(o,n,[&](double x){ return ((double)B+(double)A)*x-(double)A; },-(double)A,(double)B,"gen_vector_st/mt(neg,pos)"); break;
		case 2: mt?g.gen_vector_norm_mt(o.data(),n):g.gen_vector_norm_st(o.data(),n); judge<R>(o,n,[&](double x){ return x; },0,1,"gen_vector_norm_st/mt"); break;
		case 3: mt?g.gen_vector_gtz_mt(o.data(),n,A):g.gen_vector_gtz_st(o.data(),n,A); judge<R>(o,n,[&](double x){ return x*(double)A; },0,(double)A,"gen_vector_gtz_st/mt"); break;
		case 5: { R P=(R)b; mt?g.bernoulli_vector_mt(o.data(),n,P,A,-B):g.bernoulli_vector_st(o.data(),n,P,A,-B); judge<R>(o,n,[&](double x){ return x<(double)P?(double)A:-(double)B; },-1e9,1e9,"bernoulli_vector_st/mt"); break; } default: break; } mc::op(); } }
static const double AA[]={1,.5,3,1e-3,2.75}; static const double BB[]={.5,.25,.75,1./(1<<24)};
SCENARIO(uniform){ g_h.clear(); int n=1+mc::choose(mc::thorough()?18:12),var=mc::choose(9),T=mc::choose(2),W=1+mc::choose(4); mc::shard(); int ai=mc::choose(5),bi=mc::choose(4); int sc=mc::choose(2); g_order=mc::choose(2); g_W=W; g_scr=sc; double a=AA[ai],b=BB[bi]; H("n=%d fn=%d real=%d threads=%d a=%g b=%g script=%d order=%d",n,var,T,W,a,b,sc,g_order); mc::state((((((n*9+var)*2+T)*5+W)*5+ai)*4+bi)*4+sc*2+g_order); if(T) uni_mt<float>(n,var,a,b); else uni_mt<double>(n,var,a,b); if(W==1){ resetLog(); if(T){ ST<float> g(5); uniforms<float>(g,n,var,a,b); } else { ST<double> g(5); uniforms<double>(g,n,var,a,b); } } mc::sample("%s",g_h.c_str()); }
// every combination of extreme draws for up to four values
SCENARIO(extremes){ g_h.clear(); int code=mc::choose(1296),T=mc::choose(2); mc::shard(); int var=mc::choose(9),ai=mc::choose(5); g_order=0; g_W=1; g_scr=10+code; double a=AA[ai]; H("draws code=%d fn=%d real=%d a=%g",code,var,T,a); mc::state(((uint64_t)code*2+T)*64+var*5+ai); if(T) uni_mt<float>(4,var,a,.5); else uni_mt<double>(4,var,a,.5); resetLog(); if(T){ ST<float> g(5); uniforms<float>(g,4,var,a,.5); } else { ST<double> g(5); uniforms<double>(g,4,var,a,.5); } }
// matrices: all elements but the bias column
template<class R,class G> static void matrices(G&g,int r,int c,bool bias,bool bir,int var){ auto m=mk<R>(r,c,bias,bir,[](int,int){ return R(-77); }); forget(); R A=R(.75); int n=r*c; auto full=[&](double lo,double hi,auto map){ std::vector<R> o; for(int j=0;j<c;j++) for(int i=0;i<r;i++) o.push_back(m.get(i,j)); (void)n; auto dr=drawn(); if(var!=7) judge<R>(o,n,map,lo,hi,"matrix"); else for(R x:o) CK(x>=lo&&x<=hi,"gen_matrixAny: element %g",(double)x); if(bias) CK(bir?m.test_biases_strict():m.test_biases_strict(),"the bias changed"); };
	switch(var){ case 0: if(bias) throw mc::Skip(); g.gen_matrix(m,A); full(-.75,.75,[](double x){ return 1.5*x-.75; }); break; case 1: if(bir) throw mc::Skip(); g.gen_matrix_no_bias(m,A); full(-.75,.75,[](double x){ return 1.5*x-.75; }); break;
	case 2: if(bias) throw mc::Skip(); g.gen_matrix_norm(m); full(0,1,[](double x){ return x; }); break; case 3: if(bir) throw mc::Skip(); g.gen_matrix_no_bias_norm(m); full(0,1,[](double x){ return x; }); break; case 4: if(bias) throw mc::Skip(); g.gen_matrix_gtz(m,A); full(0,.75,[](double x){ return .75*x; }); break; case 5: if(bir) throw mc::Skip(); g.gen_matrix_no_bias_gtz(m,A); full(0,.75,[](double x){ return .75*x; }); break;
	case 6: if(bias) throw mc::Skip(); { g.bernoulli_matrix(m,R(.5),R(2),R(-1)); full(-1,2,[](double x){ return x<.5?2.:-1.; }); g.binary_matrix(m,R(.25)); for(int j=0;j<c;j++) for(int i=0;i<r;i++) CK(m.get(i,j)==R(0)||m.get(i,j)==R(1),"binary_matrix"); } break; case 7: g.gen_matrixAny(m,A); full(-.75,.75,[](double x){ return 1.5*x-.75; }); break;
	case 8: if(bias) throw mc::Skip(); { g.normal_matrix(m,R(3),R(1e-3)); for(int j=0;j<c;j++) for(int i=0;i<r;i++) CK(fabs((double)m.get(i,j)-3)<.01,"normal_matrix(3,0.001) holds %g",(double)m.get(i,j)); } break; } mc::op(); }
SCENARIO(matrix){ g_h.clear(); int r=1+mc::choose(4),c=1+mc::choose(4); bool bias=mc::choose(2),bir=mc::choose(2); mc::shard(); int var=mc::choose(9),T=mc::choose(2),W=1+mc::choose(3); g_order=mc::choose(2); g_W=W; g_scr=0; H("%dx%d bias=%d batch-in-row=%d fn=%d real=%d threads=%d",r,c,bias,bir,var,T,W); mc::state((((((r*5+c)*2+bias)*2+bir)*9+var)*2+T)*8+W*2+g_order); resetLog(); if(T){ TH<float> th; MT<float> g(th,3); matrices<float>(g,r,c,bias,bir,var); } else { TH<double> th; MT<double> g(th,3); matrices<double>(g,r,c,bias,bir,var); } resetLog(); if(T){ ST<float> g(3); matrices<float>(g,r,c,bias,bir,var); } else { ST<double> g(3); matrices<double>(g,r,c,bias,bir,var); } mc::sample("%s",g_h.c_str()); }
// indices for shuffling, raw numbers
template<class R,class G> static void ints(G&g,int L,int k){ g_scr=2; g_fixed=(int)(uint32_t)std::min<uint64_t>(0xffffffffull,(uint64_t)k*0x04000000ull); auto v=g.gen_i(L); CK(v>=0&&v<L,"gen_i(%d) answered %d",L,(int)v); CK((int)v==(int)(((uint64_t)(uint32_t)g_fixed*(uint64_t)L)>>32),"gen_i(%d) answered %d for the draw %u",L,(int)v,(unsigned)g_fixed); auto w=g(L); CK(w==v,"operator()(%d)",L); g_scr=1; forget(); for(int i=0;i<6;i++){ auto x=g(); CK(g_log.b[0].size()==size_t(i+1)&&(uint32_t)x==g_log.b[0][i],"operator()() is not the raw number"); } CK(g.min()==std::numeric_limits<uint32_t>::min()&&g.max()==std::numeric_limits<uint32_t>::max(),"min/max"); mc::outcome(v); mc::op(); }
SCENARIO(integers){ g_h.clear(); int L=1+mc::choose(33); if(L==33) L=INT_MAX; int k=mc::choose(65); mc::shard(); int T=mc::choose(2),W=1+mc::choose(2); g_W=W; g_order=0; H("gen_i(%d) draw %d/64 real=%d threads=%d",L,k,T,W); mc::state(((uint64_t)(L==INT_MAX?40:L)*65+k)*4+T*2+W-1); resetLog(); if(T){ TH<float> th; MT<float> g(th,3); ints<float>(g,L,k); ST<float>*s; resetLog(); s=new ST<float>(3); ints<float>(*s,L,k); delete s; } else { TH<double> th; MT<double> g(th,3); ints<double>(g,L,k); resetLog(); ST<double> s(3); ints<double>(s,L,k); } }
// normal distribution: N(m,st) is m+st*N(0,1); N(0,1) really is that
template<class R,class G> static void normals(G&g,int n,int s,double m,double st){ std::vector<R> z(n+2,R(-77)),o(n+2,R(-77)); g.seed(s); g.normal_vector(z.data(),n); g.seed(s); g.normal_vector(o.data(),n,(R)m,(R)st); for(int i=0;i<n;i++){ CK(std::isfinite((double)z[i])&&fabs((double)z[i])<8,"N(0,1) made %g",(double)z[i]); double e=m+st*(double)z[i]; CK(fabs((double)o[i]-e)<=16*std::numeric_limits<R>::epsilon()*(fabs(m)+fabs(st*(double)z[i])),"N(%g,%g) made %.9g where N(0,1) made %.9g",m,st,(double)o[i],(double)z[i]); for(int j=0;j<i;j++) CK(z[i]!=z[j],"elements %d and %d of a random vector are the same",i,j); } CK(z[n]==R(-77)&&o[n]==R(-77),"wrote behind the end"); mc::op(); mc::op(); }
template<class R,class G> static void momentsOf(G&&fill,const char*w,double m,double st){ const int n=6000; std::vector<R> z(n); fill(z.data(),n); double s=0,q=0; int neg=0; for(R x:z){ double y=((double)x-m)/st; s+=y; q+=y*y; neg+=y<0; } s/=n; q=q/n-s*s; CK(fabs(s)<.08&&fabs(q-1)<.1&&abs(neg-n/2)<n/20,"%s: mean %g, variance %g, %d of %d negative after standardising",w,s,q,neg,n); mc::op(); }
SCENARIO(normal){ g_h.clear(); static const double M[]={0,1,-2.5,100},S[]={1,.5,3,.01}; int n=1+mc::choose(9),T=mc::choose(2),W=1+mc::choose(4); mc::shard(); int mi=mc::choose(4),si=mc::choose(4); g_order=mc::choose(2); g_W=W; g_scr=0; H("N(%g,%g) n=%d real=%d threads=%d",M[mi],S[si],n,T,W); mc::state((((n*2+T)*5+W)*4+mi)*8+si*2+g_order); resetLog(); if(T){ TH<float> th; MT<float> g(th,3); normals<float>(g,n,7,M[mi],S[si]); } else { TH<double> th; MT<double> g(th,3); normals<double>(g,n,7,M[mi],S[si]); } if(W==1){ resetLog(); if(T){ ST<float> g(3); normals<float>(g,n,7,M[mi],S[si]); } else { ST<double> g(3); normals<double>(g,n,7,M[mi],S[si]); } } mc::sample("%s",g_h.c_str()); }
SCENARIO(moments){ g_h.clear(); static const double M[]={0,-2.5},S[]={1,.25}; int which=mc::choose(5),T=mc::choose(2),mi=mc::choose(2),si=mc::choose(2),sd=mc::choose(3); mc::shard(); g_W=1+which%2*2; g_order=0; g_scr=0; double m=M[mi],st=S[si]; H("moments of N(%g,%g) generator=%d real=%d seed=%d",m,st,which,T,sd); mc::state((((which*2+T)*2+mi)*2+si)*3+sd); resetLog(); auto go=[&](auto r){ typedef decltype(r) R; switch(which){ case 0: { ST<R> g(sd); momentsOf<R>([&](R*p,int n){ g.normal_vector(p,n,(R)m,(R)st); },"AFRand::normal_vector",m,st); break; } case 1: { TH<R> th; MT<R> g(th,sd); momentsOf<R>([&](R*p,int n){ g.normal_vector(p,n,(R)m,(R)st); },"AFRand_mt::normal_vector",m,st); break; } case 2: { ST<R> g(sd); rng::distr_normal_naive<ST<R>> d(g,(R)m,(R)st); momentsOf<R>([&](R*p,int n){ d.gen_vector(p,n); },"distr_normal_naive over AFRand",m,st); break; } case 3: { rng::CStd<R> g(sd+1); momentsOf<R>([&](R*p,int n){ g.normal_vector(p,n,(R)m,(R)st); },"CStd::normal_vector",m,st); break; } case 4: { rng::CStd<R> g(sd+1); rng::distr_normal_naive<rng::CStd<R>> d(g,(R)m,(R)st); momentsOf<R>([&](R*p,int n){ d.gen_vector(p,n); },"distr_normal_naive over CStd",m,st); break; } } }; if(T) go(float()); else go(double()); mc::sample("%s",g_h.c_str()); }
SCENARIO(naive){ g_h.clear(); int r=1+mc::choose(3),c=1+mc::choose(3),bias=mc::choose(2),T=mc::choose(2); mc::shard(); g_W=1; g_order=0; g_scr=0; H("distr_normal_naive %dx%d bias=%d real=%d",r,c,bias,T); mc::state(((r*4+c)*2+bias)*2+T); auto go=[&](auto z){ typedef decltype(z) R; resetLog(); ST<R> g(3); rng::distr_normal_naive<ST<R>> d(g,R(5),R(.001)); auto m=mk<R>(r,c,bias,false,[](int,int){ return R(-77); }); if(bias) d.gen_matrix_no_bias(m); else d.gen_matrix(m); for(int j=0;j<c;j++) for(int i=0;i<r;i++) CK(fabs((double)m.get(i,j)-5)<.01,"element %d,%d is %g",i,j,(double)m.get(i,j)); if(bias) CK(m.test_biases_strict(),"the bias changed"); }; if(T) go(float()); else go(double()); mc::op(); }
// seeding: the same seed repeats the same numbers whatever was drawn before; the workers' generators differ; other seeds give other numbers
template<class R,class G> static std::vector<R> burst(G&g,int n,int mask){ std::vector<R> o; std::vector<R> v(n); g.gen_vector(v.data(),n,R(1)); o.insert(o.end(),v.begin(),v.end()); if(mask&1){ g.normal_vector(v.data(),n,R(0),R(1)); o.insert(o.end(),v.begin(),v.end()); } if(mask&2){ g.bernoulli_vector(v.data(),n,R(.5),R(1),R(0)); o.insert(o.end(),v.begin(),v.end()); } o.push_back((R)g.gen_i(1000)); o.push_back((R)(g()%1000)); return o; }
SCENARIO(seeding){ g_h.clear(); int n=1+mc::choose(10),W=1+mc::choose(4),pre=mc::choose(4),mask=mc::choose(4),T=mc::choose(2); mc::shard(); int how=mc::choose(4); g_order=mc::choose(2); g_W=W; g_scr=0; H("seeding n=%d threads=%d before=%d mask=%d real=%d how=%d",n,W,pre,mask,T,how); mc::state(((((n*5+W)*4+pre)*4+mask)*2+T)*8+how*2+g_order); auto go=[&](auto z){ typedef decltype(z) R; resetLog(); TH<R> th; MT<R> g; CK(g.init_ithreads(th,11),"init_ithreads"); CK(&g.ithreads()==&th,"ithreads()"); TH<R> th2; CK(!g.init_ithreads(th2,12)&&&g.ithreads()==&th,"a second init_ithreads() must be refused"); CK(g.init_rng(),"init_rng");
	std::vector<uint64_t> ks; auto sd=[&](int s){ switch(how){ case 0: g.seed(s); break; case 1: g.seed64((uint64_t)(uint32_t)s); break; case 2: g.seed(s); (void)burst<R>(g,3,3); g.reseed(); break; case 3: g.seedTime(utils::tictoc::time_point_t(utils::tictoc::time_point_t::duration(s))); break; } };
	for(int i=0;i<pre;i++) (void)burst<R>(g,n,i); sd(21); auto a=burst<R>(g,n,mask); for(int i=0;i<=pre;i++) (void)burst<R>(g,2,i); sd(21); auto b=burst<R>(g,n,mask); CK(a==b,"the same seed gave other numbers"); sd(22); auto c=burst<R>(g,n,mask); CK(a!=c,"another seed gave the same numbers"); sd(21); g_log.d.assign(g_log.d.size(),{}); std::vector<R> v(n); g.gen_vector(v.data(),n,R(1)); for(size_t i=0;i<g_log.d.size();i++) for(size_t j=0;j<i;j++) CK(g_log.d[i].empty()||g_log.d[j].empty()||g_log.d[i][0]!=g_log.d[j][0],"workers %d and %d produce the same numbers",(int)i,(int)j); resetLog(); MT<R> g2(th,11),g3(th,11); auto x=burst<R>(g2,n,mask),y=burst<R>(g3,n,mask); CK(x==y,"two generators constructed with one seed differ"); ST<R> s1(4),s2(4); auto p=burst<R>(s1,n,mask),q=burst<R>(s2,n,mask); CK(p==q,"AFRand: same seed"); s1.seed(4); CK(burst<R>(s1,n,mask)==p,"AFRand: seed()"); g.deinit_rng(); }; if(T) go(float()); else go(double()); for(int i=0;i<8;i++) mc::op(); mc::sample("%s",g_h.c_str()); }
// C library generator
SCENARIO(cstd){ g_h.clear(); int n=1+mc::choose(6),sd=1+mc::choose(5),T=mc::choose(2); mc::shard(); int ai=mc::choose(5); H("CStd n=%d seed=%d real=%d a=%g",n,sd,T,AA[ai]); mc::state(((n*8+sd)*2+T)*5+ai); auto go=[&](auto z){ typedef decltype(z) R; rng::CStd<R> g(sd); R A=(R)AA[ai]; auto ref=[&](auto f){ g.seed(sd); std::vector<double> e; srand(sd); for(int i=0;i<n;i++) e.push_back(f((double)rand()/RAND_MAX)); g.seed(sd); return e; }; auto cmp=[&](const std::vector<R>&o,const std::vector<double>&e,double lo,double hi,const char*w){ for(int i=0;i<n;i++){ CK((double)o[i]>=lo&&(double)o[i]<=hi,"%s: %g outside [%g,%g]",w,(double)o[i],lo,hi); } std::vector<double> a(o.begin(),o.begin()+n),b=e; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); for(int i=0;i<n;i++) CK(fabs(a[i]-b[i])<=8*std::numeric_limits<R>::epsilon()*(1+fabs(hi)),"%s: %g, must be %g",w,a[i],b[i]); CK(o[n]==R(-77),"%s: wrote behind the end",w); };
	std::vector<R> o(n+1,R(-77)); auto e=ref([&](double x){ return 2*(double)A*x-(double)A; }); g.gen_vector(o.data(),n,A); cmp(o,e,-(double)A,(double)A,"gen_vector"); e=ref([&](double x){ return x; }); g.gen_vector_norm(o.data(),n); cmp(o,e,0,1,"gen_vector_norm"); e=ref([&](double x){ return x*(double)A; }); g.gen_vector_gtz(o.data(),n,A); cmp(o,e,0,(double)A,"gen_vector_gtz"); for(int L=1;L<20;L++){ auto v=g.gen_i(L); CK(v>=0&&v<L,"gen_i(%d) answered %d",L,(int)v); } for(int i=0;i<20;i++){ auto v=g(); CK(v>=g.min()&&v<=g.max(),"outside min..max"); } auto f=g.template gen_f_norm<R>(); CK(f>=0&&f<=1,"gen_f_norm"); g.bernoulli_vector(o.data(),n,R(.5),A,-A); for(int i=0;i<n;i++) CK(o[i]==A||o[i]==-A,"bernoulli"); }; if(T) go(float()); else go(double()); mc::op(); }
