// Activation functions and their derivatives: math engine implementations and the activation classes.
#include "mathx.hpp"
#include "nntl/utils.h"
#include "nntl/interfaces.h"
#include "nntl/activation.h"
#include "nntl/activations/identity.h"
#include "nntl/activations/step.h"
typedef std::function<double(double)> Fn;
static const double XV[]={-30,-4,-1,-0.25,0,0.001,0.5,1.75,30}; static const int NX=9;
static const double INF=std::numeric_limits<double>::infinity();
// definitions: value, left derivative, right derivative (equal except at kinks)
struct Def{ Fn f,d; double d0l,d0r; };   // d0l/d0r: one-sided derivatives at zero
static Def D_relu(){ return {[](double x){ return x<0?0:x; },[](double x){ return x<0?0.:1.; },0,1}; }
static Def D_leaky(double k){ return {[=](double x){ return x<0?k*x:x; },[=](double x){ return x<0?k:1.; },k,1}; }
static Def D_elu(double a){ return {[=](double x){ return x<0?a*std::expm1(x):x; },[=](double x){ return x<0?a*std::exp(x):1.; },a,1}; }
static Def D_selu(double al,double l){ return {[=](double x){ return x<0?al*std::expm1(x):l*x; },[=](double x){ return x<0?al*std::exp(x):l; },al,l}; }
static Def D_elogu(double a,double b){ double L=std::log(b); return {[=](double x){ return x<0?a*std::expm1(x):std::log1p(x)/L; },[=](double x){ return x<0?a*std::exp(x):1/((1+x)*L); },a,1/L}; }
static Def D_loglogu(double bn,double bp){ double N=std::log(bn),L=std::log(bp); return {[=](double x){ return x<0?-std::log1p(-x)/N:std::log1p(x)/L; },[=](double x){ return x<0?1/((1-x)*N):1/((1+x)*L); },1/N,1/L}; }
static Def D_logu(double bp){ double L=std::log(bp); return {[=](double x){ return x<0?0:std::log1p(x)/L; },[=](double x){ return x<0?0:1/((1+x)*L); },0,1/L}; }
static Def D_softsign(double a,double c){ return {[=](double x){ return c*x/(a+std::fabs(x)); },[=](double x){ double s=a+std::fabs(x); return c*a/(s*s); },c/a,c/a}; }
static Def D_softsigm(double a){ return {[=](double x){ return 0.5+0.5*x/(a+std::fabs(x)); },[=](double x){ double s=a+std::fabs(x); return 0.5*a/(s*s); },0.5/a,0.5/a}; }
static Def D_sigm(){ return {[](double x){ return 1/(1+std::exp(-x)); },[](double x){ double s=1/(1+std::exp(-x)); return s*(1-s); },0.25,0.25}; }
static Def D_step(){ return {[](double x){ return x<0?0.:1.; },[](double){ return 0.; },0,0}; }
static Def D_ident(){ return {[](double x){ return x; },[](double){ return 1.; },1,1}; }
static const double E1=2.718281828459045;
// argument of element k: all assignments for 1-2 elements, rotations of the value list otherwise
struct Arg{ int n,code; Arg(int n_):n(n_){ code=n==1?mc::choose(NX):n==2?mc::choose(NX*NX):mc::choose(3); } double operator()(int k)const{ return n==1?XV[code]:n==2?XV[k?code/NX:code%NX]:XV[(k*(code==2?2:1)+code*4)%NX]; } };
template<class R> static double tol(){ return sizeof(R)==4?1e-5:1e-12; }
#define SZ int r=dim(), c=dim(); mc::shard();
template<class R,class FF,class FD> static void act(const Def&d,const char* nm,FF&&vf,FD&&vd){ typedef IMT<R> IM; SZ Arg x(r*c); bool der=mc::choose(2), bias=der?false:(bool)mc::choose(2), bir=mc::choose(2)&&!bias; ctx("%s %dx%d bias %d",nm,r,c,bias);
	auto A=mk<R>(r,c,bias,bir,[&](int i,int j){ double v=x(i+r*j); return der?d.f(v):v; });
	if(!der){ exec<IM>(vf(A)); CHECK(A.emulatesBiases()==bias,"flags"); cmpM(A,[&](int i,int j)->double{ return j<c?d.f(x(i+r*j)):1; },tol<R>()); }
	else { exec<IM>(vd(A)); for(int j=0;j<c;j++) for(int i=0;i<r;i++){ double v=x(i+r*j), g=A.get(i,j); bool ok=v==0?(near(g,d.d0l,tol<R>()*2)||near(g,d.d0r,tol<R>()*2)):near(g,d.d(v),tol<R>()*8); float q=(float)g; mc::outcome(mc::hbytes(&q,4)); CHECK(ok,"%s: derivative at x=%g is %.9g, must be %.9g (%d threads) | %s",g_var,v,g,d.d(v),g_W,g_ctx.c_str()); } } }
#define EMP
#define VA(nm,...) [&](Mx<R>&A){ return std::vector<Var<IMT<R>>>{Var<IMT<R>>{#nm,1,[&](IMT<R>&im){ im.nm(A __VA_ARGS__); },nullptr},Var<IMT<R>>{#nm "_st",0,[&](IMT<R>&im){ im.nm##_st(A __VA_ARGS__); },nullptr},Var<IMT<R>>{#nm "_mt",2,[&](IMT<R>&im){ im.nm##_mt(A __VA_ARGS__); },nullptr}}; }
#define ACT(nm,def,...) BOTH(m_##nm){ act<R>(def,#nm,VA(nm,__VA_ARGS__),VA(d##nm,__VA_ARGS__)); }
#define CM ,
BOTH(m_softsign_uc){ act<R>(D_softsign(0.5,1),"softsign_uc",VA(softsign_uc,,R(0.5)),VA(dsoftsign,,R(0.5),R(1))); }
BOTH(m_softsign_ua_uc){ act<R>(D_softsign(1,1),"softsign_ua_uc",VA(softsign_uc,,R(1)),VA(dsoftsign_ua_uc)); }
BOTH(m_step){ typedef IMT<R> IM; act<R>(D_step(),"step",VA(step),[&](Mx<R>&A){ return std::vector<Var<IM>>{Var<IM>{"step::df",1,[&](IM&im){ activation::step<R>::df(A,im); },nullptr}}; }); }
ACT(relu,D_relu()) ACT(leakyrelu,D_leaky(0.125),,R(0.125)) ACT(elu,D_elu(0.5),,R(0.5)) ACT(elu_unitalpha,D_elu(1)) ACT(selu,D_selu(1.75,1.05),,R(1.75),R(1.05))
ACT(elogu,D_elogu(0.5,2),,R(0.5),R(2)) ACT(elogu_ua,D_elogu(1,2),,R(2)) ACT(elogu_nb,D_elogu(0.5,E1),,R(0.5)) ACT(elogu_ua_nb,D_elogu(1,E1))
ACT(loglogu,D_loglogu(3,2),,R(3),R(2)) ACT(loglogu_nbn,D_loglogu(E1,2),,R(2)) ACT(loglogu_nbp,D_loglogu(3,E1),,R(3)) ACT(loglogu_nbn_nbp,D_loglogu(E1,E1))
ACT(logu,D_logu(2),,R(2)) ACT(logu_nb,D_logu(E1)) ACT(softsign,D_softsign(0.5,1.5),,R(0.5),R(1.5)) ACT(softsigm,D_softsigm(2),,R(2)) ACT(sigm,D_sigm())
// ---- classes: parameters are passed on correctly, f(0)==0 exactly when announced, f and df of one class belong together
template<class R,class T> static void cls(const Def&d,const char*nm){ typedef IMT<R> IM; bool zs=T::bFIsZeroStable; CHECK(zs==(d.f(0)==0),"%s: announced zero stability is wrong",nm);
	act<R>(d,nm,[&](Mx<R>&A){ return std::vector<Var<IM>>{Var<IM>{"f",1,[&](IM&im){ T::f(A,im); },nullptr}}; },[&](Mx<R>&A){ return std::vector<Var<IM>>{Var<IM>{"df",1,[&](IM&im){ T::df(A,im); },nullptr}}; }); }
#define CLS(id,def,...) BOTH(c_##id){ namespace a=activation; typedef __VA_ARGS__ T; cls<R,T>(def,#__VA_ARGS__); }
CLS(relu,D_relu(),a::relu<R>) CLS(leaky,D_leaky(0.01),a::leaky_relu<R>) CLS(leaky1000,D_leaky(0.001),a::leaky_relu_1000<R>) CLS(leaky100,D_leaky(0.01),a::leaky_relu_100<R>) CLS(vleaky,D_leaky(1/5.5),a::very_leaky_relu_5p5<R>)
CLS(elu,D_elu(0.75),a::elu<R,750>) CLS(elu_ua,D_elu(1),a::elu_ua<R>) CLS(elogu1,D_elogu(0.75,3),a::elogu<R,750,3000>) CLS(elogu2,D_elogu(1,3),a::elogu_ua<R,3000>) CLS(elogu3,D_elogu(0.75,E1),a::elogu_nb<R,750>) CLS(elogu4,D_elogu(1,E1),a::elogu_ua_nb<R>)
CLS(loglogu1,D_loglogu(3,2),a::loglogu<R,3000,2000>) CLS(loglogu2,D_loglogu(E1,3),a::loglogu_nbn<R,3000>) CLS(loglogu3,D_loglogu(3,E1),a::loglogu_nbp<R,3000>) CLS(loglogu4,D_loglogu(E1,E1),a::loglogu_nbn_nbp<R>)
CLS(logu,D_logu(3),a::logu<R,3000>) CLS(logu_nb,D_logu(E1),a::logu_nb<R>) CLS(selu,D_selu(1.6732632423543772*1.0507009873554805,1.0507009873554805),a::selu<R>) CLS(selu2,D_selu(3,2),a::selu<R,1500000000,2000000000>)
CLS(sigm,D_sigm(),a::sigm<R>) CLS(softsigm,D_softsigm(2),a::softsigm<R,2000>) CLS(softsigm_ua,D_softsigm(1),a::softsigm_ua<R>) CLS(softsign,D_softsign(2,1),a::softsign<R,2000000>) CLS(softsign2,D_softsign(2,1.5),a::softsign<R,2000000,1500000>) CLS(softsign3,D_softsign(1,1),a::softsign_uc_ua<R>) CLS(softsign4,D_softsign(1,1.5925374197228312),a::softsign<R,1000000,0>) CLS(step,D_step(),a::step<R>) CLS(identity,D_ident(),a::identity<R>)
CLS(sigm_quad,D_sigm(),a::sigm_quad_loss<R>) CLS(sigm_xe,D_sigm(),a::sigm_xentropy_loss<R>) CLS(softsigm_quad,D_softsigm(2),a::softsigm_quad_loss<R,2000>) CLS(softsigm_xe,D_softsigm(2),a::softsigm_xentropy_loss<R,2000>) CLS(ident_quad,D_ident(),a::identity_quad_loss<R>)
// coefficients of alpha-dropout keep mean and variance of the activations
BOTH(alphaDropoutCoeffs){ int pi=mc::choose(9); mc::shard(); int which=mc::choose(3); double p=0.1*(pi+1); R a,b,dv,a2,b2; double al,l,m,v; 
	#define CC(...) { typedef __VA_ARGS__ S; S::calc_a_b(R(p),a2,b2); S::calc_coeffs(R(p),a,b,dv); al=-(double)S::Alpha_t_Lambda; m=(double)S::FixedPointMean; v=(double)S::FixedPointVariance; l=S::act_scaling_coeff(); CHECK(near(l,(double)S::Lambda,1e-7),"scaling coefficient"); }
	if(which==0) CC(activation::selu<R>) else if(which==1) CC(activation::selu<R,0,0,100000,2000000>) else CC(activation::selu<R,1500000000,2000000000,-250000,500000>)
	ctx("keep %g set %d",p,which); g_var="calc_coeffs"; mc::op(); mc::state(pi*3+which+100*sizeof(R)); double t=sizeof(R)==4?2e-5:1e-12; cmpS(a,a2,0,"a"); cmpS(b,b2,0,"b"); cmpS(dv,a*al+b,t,"dropped value");
	// a*X+b where X is x with probability p, al otherwise
	double mean=a*(p*m+(1-p)*al)+b, e2=p*(v+m*m)+(1-p)*al*al, ex=p*m+(1-p)*al, var=a*a*(e2-ex*ex); cmpS(mean,m,t,"mean"); cmpS(var,v,t*4,"variance"); }
