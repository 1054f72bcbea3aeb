// Loss functions, their derivatives by the neuron input, and softmax.
#include "mathx.hpp"
#include "nntl/utils.h"
#include "nntl/interfaces.h"
#include "nntl/activation.h"
#include "nntl/activations/identity.h"
#define SZ int r=dim(), c=dim(); mc::shard();
template<class R> static double tol(){ return sizeof(R)==4?1e-5:1e-12; }
static const double ZV[]={-2,-0.5,0.25,1.5}, YV[]={0,1,0.5,-1.5};
// z and y assignments: all for one or two elements, cyclic patterns otherwise
struct ZY{ int n,code,ny; ZY(int n_,int ny_):n(n_),ny(ny_){ int q=4*ny; code=n==1?mc::choose(q):n==2?mc::choose(q*q):mc::choose(4); } int idx(int k)const{ int q=4*ny; return n==1?code:n==2?(k?code/q:code%q):(k*(2*code+1)+code+k/7)%q; } double z(int k)const{ return ZV[idx(k)%4]; } double y(int k)const{ return YV[idx(k)/4]; } };
typedef std::function<double(double)> F1; typedef std::function<double(double,double)> F2;
template<class T,class R> static Var<IMT<R>> L(const char*n,Mx<R>&A,Mx<R>&Y,R&g){ return Var<IMT<R>>{n,1,[&](IMT<R>&im){ g=T::loss(A,Y,im); },nullptr}; }
// class: activation f, loss l(a,y) summed over all elements; dL/dZ = dl/da * f'
template<class R,class T> static void lossCls(const char*nm,F1 f,F1 df,F2 l,F2 dl,int ny,bool ident=false){ typedef IMT<R> IM; SZ ZY p(r*c,ny); auto A=mk<R>(r,c,false,false,[&](int i,int j){ return f(p.z(i+r*j)); }), Y=mk<R>(r,c,false,false,[&](int i,int j){ return p.y(i+r*j); }); auto a0=snap(A),y0=snap(Y); int op=mc::choose(ident?2:3); ctx("%s op %d %dx%d",nm,op,r,c); R g=R(-1);
	if(op==0){ exec<IM>({L<T,R>("loss",A,Y,g)}); double s=0; for(int k=0;k<r*c;k++) s+=l(f(p.z(k)),p.y(k)); cmpS(g,s,tol<R>()*4); same(A,a0,"activations"); }
	else if(op==1){ exec<IM>({VAR("dLdZ",1,T::dLdZ(Y,A,im))}); cmpM(A,[&](int i,int j){ double z=p.z(i+r*j),y=p.y(i+r*j); return dl(f(z),y)*df(z); },tol<R>()*4); }
	else { exec<IM>({VAR("dLdZIdentity",1,T::dLdZIdentity(Y,A,im))}); cmpM(A,[&](int i,int j){ double z=p.z(i+r*j),y=p.y(i+r*j); return dl(f(z),y); },tol<R>()*4); }
	same(Y,y0,"targets"); }
static double sg(double x){ return 1/(1+std::exp(-x)); } static double dsg(double x){ return sg(x)*(1-sg(x)); } static double id(double x){ return x; } static double one(double){ return 1; }
static F1 ss(double a){ return [=](double x){ return 0.5+0.5*x/(a+std::fabs(x)); }; } static F1 dss(double a){ return [=](double x){ double s=a+std::fabs(x); return 0.5*a/(s*s); }; }
static double quad(double a,double y){ return (a-y)*(a-y)/2; } static double dquad(double a,double y){ return a-y; } static double xe(double a,double y){ return -(y*std::log(a)+(1-y)*std::log1p(-a)); } static double dxe(double a,double y){ return (a-y)/(a*(1-a)); }
namespace act=activation; typedef weights_init::SNNInit WI; 
BOTH(ident_quad){ lossCls<R,act::identity_quad_loss<R>>("identity_quad_loss",id,one,quad,dquad,4); }
BOTH(ident_quad_ns){ lossCls<R,act::identity_quad_loss<R,WI,true>>("identity_quad_loss ns",id,one,quad,dquad,4); }
BOTH(sigm_quad){ lossCls<R,act::sigm_quad_loss<R>>("sigm_quad_loss",sg,dsg,quad,dquad,3); }
BOTH(sigm_quad_ns){ lossCls<R,act::sigm_quad_loss<R,WI,true>>("sigm_quad_loss ns",sg,dsg,quad,dquad,3); }
BOTH(sigm_xe){ lossCls<R,act::sigm_xentropy_loss<R>>("sigm_xentropy_loss",sg,dsg,xe,dxe,2); }
BOTH(sigm_xe_ns){ lossCls<R,act::sigm_xentropy_loss<R,WI,true>>("sigm_xentropy_loss ns",sg,dsg,xe,dxe,2); }
BOTH(softsigm_quad){ lossCls<R,act::softsigm_quad_loss<R,2000>>("softsigm_quad_loss",ss(2),dss(2),quad,dquad,3); }
BOTH(softsigm_quad_ns){ lossCls<R,act::softsigm_quad_loss<R,2000,WI,true>>("softsigm_quad_loss ns",ss(2),dss(2),quad,dquad,3); }
BOTH(softsigm_xe){ lossCls<R,act::softsigm_xentropy_loss<R,500>>("softsigm_xentropy_loss",ss(0.5),dss(0.5),xe,dxe,2); }
BOTH(softsigm_xe_ns){ lossCls<R,act::softsigm_xentropy_loss<R,500,WI,true>>("softsigm_xentropy_loss ns",ss(0.5),dss(0.5),xe,dxe,2); }
// weighted quadratic losses: weight 4 (2 squared) for false positives (y below the boundary, answer above y)
static double qw(double a,double y){ double e=y<0.5&&a>y?2*(a-y):a-y; return e*e/2; } static double dqw(double a,double y){ return y<0.5&&a>y?4*(a-y):a-y; }
static double qw2(double a,double y){ double e=(y<0.5&&a>y?2:0.5)*(a-y); return e*e/2; } static double dqw2(double a,double y){ return (y<0.5&&a>y?4:0.25)*(a-y); }
static double qwr(double a,double y){ double e=y<0.5&&a>y?2*a+0.5*(1-2)-y:a-y; return e*e/2; } static double dqwr(double a,double y){ return y<0.5&&a>y?2*(2*a-0.5-y):a-y; }
BOTH(custom_FP){ lossCls<R,act::identity_custom_loss<act::Linear_Loss_quadWeighted_FP<R,2000000,500000>>>("Linear_Loss_quadWeighted_FP",id,one,qw,dqw,4); }
BOTH(custom_FP2){ lossCls<R,act::identity_custom_loss<act::Linear_Loss_quadWeighted2_FP<R,2000000,500000,500000>>>("Linear_Loss_quadWeighted2_FP",id,one,qw2,dqw2,4); }
BOTH(custom_FPres){ lossCls<R,act::identity_custom_loss<act::Linear_Loss_quadWeighted_res_FP<R,2000000,500000>>>("Linear_Loss_quadWeighted_res_FP",id,one,qwr,dqwr,4); }
template<class R> struct PlainQuad: act::Loss_quadratic<R>{ typedef typename act::_impl::L_normalize_as_quadratic<R>::real_t real_t; typedef act::tag_Linear_Loss_quadWeighted_FP tag_dLdZ; typedef act::tag_Loss_quadWeighted_FP tag_loss; static R dLdZ(R y,R a)noexcept{ return a-y; } };
BOTH(custom_plain){ lossCls<R,act::identity_custom_loss<PlainQuad<R>>>("Loss_quadratic",id,one,quad,dquad,4); }
// every implementation of the loss functions
BOTH(impl){ typedef IMT<R> IM; SZ int op=mc::choose(9); bool xent=op==2||op==3||op==5||op==7||op==8; ZY p(r*c,op==4?3:xent?2:3); F1 f=op==4?F1(sg):op<=1||op==0?F1(id):op==6||op==7?ss(2):F1(sg); auto A=mk<R>(r,c,false,false,[&](int i,int j){ return f(p.z(i+r*j)); }), Y=mk<R>(r,c,false,false,[&](int i,int j){ return p.y(i+r*j); }); auto a0=snap(A),y0=snap(Y); ctx("op %d %dx%d",op,r,c); R g=R(-1);
	auto sum=[&](F2 l){ double s=0; for(int k=0;k<r*c;k++) s+=l(f(p.z(k)),p.y(k)); return s; }; auto dz=[&](F2 dl,F1 df){ cmpM(A,[&](int i,int j){ double z=p.z(i+r*j),y=p.y(i+r*j); return dl(f(z),y)*df(z); },tol<R>()*4); };
	#define LV(nm,st,mt) exec<IM>({VAR(#nm,1,g=im.nm(A,Y)),VAR(#st,0,g=im.st(A,Y)),VAR(#mt,2,g=im.mt(A,Y))}); same(A,a0,"activations");
	switch(op){
	case 0: LV(loss_quadratic,loss_quadratic_st_naive,loss_quadratic_mt_naive) cmpS(g,sum(quad),tol<R>()); break;
	case 1: LV(loss_quadratic_ns,loss_quadratic_st_naive_ns,loss_quadratic_mt_naive_ns) cmpS(g,sum(quad),tol<R>()); break;
	case 2: LV(loss_xentropy,loss_xentropy_st,loss_xentropy_mt) cmpS(g,sum(xe),tol<R>()*2); break;
	case 3: LV(loss_xentropy_ns,loss_xentropy_ns_st,loss_xentropy_ns_mt) cmpS(g,sum(xe),tol<R>()*2); break;
	case 4: LV(loss_softmax_xentropy,loss_softmax_xentropy_st,loss_softmax_xentropy_mt) cmpS(g,sum([](double a,double y){ return -y*std::log(a); }),tol<R>()*2); break;
	case 5: exec<IM>({VAR("dIdentityXEntropyLoss_dZ",1,im.dIdentityXEntropyLoss_dZ(Y,A)),VAR("dIdentityXEntropyLoss_dZ_st",0,im.dIdentityXEntropyLoss_dZ_st(Y,A)),VAR("dIdentityXEntropyLoss_dZ_mt",2,im.dIdentityXEntropyLoss_dZ_mt(Y,A))}); dz(dxe,one); break;
	case 6: exec<IM>({VAR("dSoftSigmQuadLoss_dZ",1,im.dSoftSigmQuadLoss_dZ(Y,A,R(2))),VAR("dSoftSigmQuadLoss_dZ_st",0,im.dSoftSigmQuadLoss_dZ_st(Y,A,R(2))),VAR("dSoftSigmQuadLoss_dZ_mt",2,im.dSoftSigmQuadLoss_dZ_mt(Y,A,R(2)))}); dz(dquad,dss(2)); break;
	case 7: exec<IM>({VAR("dSoftSigmXEntropyLoss_dZ",1,im.dSoftSigmXEntropyLoss_dZ(Y,A,R(2))),VAR("dSoftSigmXEntropyLoss_dZ_st",0,im.dSoftSigmXEntropyLoss_dZ_st(Y,A,R(2))),VAR("dSoftSigmXEntropyLoss_dZ_mt",2,im.dSoftSigmXEntropyLoss_dZ_mt(Y,A,R(2)))}); dz(dxe,dss(2)); break;
	case 8: exec<IM>({VAR("dSigmQuadLoss_dZ",1,im.dSigmQuadLoss_dZ(Y,A)),VAR("dSigmQuadLoss_dZ_st",0,im.dSigmQuadLoss_dZ_st(Y,A)),VAR("dSigmQuadLoss_dZ_mt",2,im.dSigmQuadLoss_dZ_mt(Y,A))}); dz(dquad,dsg); break; }
	same(Y,y0,"targets"); }
BOTH(impl_custom){ typedef IMT<R> IM; typedef act::Linear_Loss_quadWeighted_FP<R,2000000,500000> W; SZ ZY p(r*c,4); auto A=mk<R>(r,c,false,false,[&](int i,int j){ return p.z(i+r*j); }), Y=mk<R>(r,c,false,false,[&](int i,int j){ return p.y(i+r*j); }); auto y0=snap(Y); bool l=mc::choose(2); ctx("%dx%d",r,c); R g=0;
	if(l){ exec<IM>({VAR("compute_loss",1,g=im.template compute_loss<W>(A,Y)),VAR("compute_loss_st",0,g=im.template compute_loss_st<W>(A,Y)),VAR("compute_loss_mt",2,g=im.template compute_loss_mt<W>(A,Y))}); double s=0; for(int k=0;k<r*c;k++) s+=qw(p.z(k),p.y(k)); cmpS(g,s,tol<R>()); }
	else { exec<IM>({VAR("dLoss_dZ",1,im.template dLoss_dZ<W>(Y,A)),VAR("dLoss_dZ_st",0,im.template dLoss_dZ_st<W>(Y,A)),VAR("dLoss_dZ_mt",2,im.template dLoss_dZ_mt<W>(Y,A))}); cmpM(A,[&](int i,int j){ return dqw(p.z(i+r*j),p.y(i+r*j)); },tol<R>()); } same(Y,y0,"targets"); }
// saturated answers stay finite: the loss of a certain and wrong (right) answer is large (zero), never infinite or nan
BOTH(saturated){ typedef IMT<R> IM; SZ int n=r*c; int code=n==1?mc::choose(4):n==2?mc::choose(16):mc::choose(3); auto q=[&](int k){ return n==1?code:n==2?(k?code/4:code%4):(k*(code+1)+code)%4; }; int kind=mc::choose(3); auto va=[&](int k){ return double(q(k)&1); }; auto vy=[&](int k){ return double(q(k)>>1); }; auto A=mk<R>(r,c,false,false,[&](int i,int j){ return va(i+r*j); }),Y=mk<R>(r,c,false,false,[&](int i,int j){ return vy(i+r*j); }); ctx("kind %d %dx%d",kind,r,c); R g=R(-1);
	if(kind==0) exec<IM>({VAR("loss_xentropy",1,g=im.loss_xentropy(A,Y)),VAR("loss_xentropy_mt",2,g=im.loss_xentropy_mt(A,Y))}); else if(kind==1) exec<IM>({VAR("loss_xentropy_ns",1,g=im.loss_xentropy_ns(A,Y)),VAR("loss_xentropy_ns_mt",2,g=im.loss_xentropy_ns_mt(A,Y))}); else exec<IM>({VAR("loss_softmax_xentropy",1,g=im.loss_softmax_xentropy(A,Y)),VAR("loss_softmax_xentropy_mt",2,g=im.loss_softmax_xentropy_mt(A,Y))});
	int wrong=0; for(int k=0;k<n;k++) if(kind==2?(vy(k)==1&&va(k)==0):va(k)!=vy(k)) wrong++; CHECK(std::isfinite(g),"%s: not finite | %s",g_var,g_ctx.c_str()); double unit=-std::log((double)std::numeric_limits<R>::min()); CHECK(g>=wrong*unit*0.5-1e-3&&g<=wrong*unit*1.5+1e-3,"%s: loss %g for %d wrong answers | %s",g_var,(double)g,wrong,g_ctx.c_str()); }
// ---- softmax
static const double SV[]={-300,-1,0,2,300};
BOTH(softmax){ typedef IMT<R> IM; SZ int n=r*c; bool bias=mc::choose(2); int code=n==1?mc::choose(5):n==2?mc::choose(25):n<=4?mc::choose(n==3?125:625):mc::choose(6); auto v=[&](int k){ if(n<=4){ int q=code; while(k--) q/=5; return SV[q%5]; } return code<3?SV[(k*(code+1)+code+k/5)%5]:code==3?(k%7)*0.25:code==4?-1000.+k:(k*k%11)-5.; };
	auto A=mk<R>(r,c,bias,false,[&](int i,int j){ return v(i+r*j); }); ctx("%dx%d bias %d code %d",r,c,bias,code); auto need=[&](IM&im){ return im.template softmax_needTempMem<R>(A.size_no_bias()); };
	exec<IM>({VARN("softmax",1,need(im),im.softmax(A)),VARN("softmax_st",0,need(im),im.softmax_st(A)),VARN("softmax_mt",2,need(im),im.softmax_mt(A)),VARN("softmax_xentropy_loss::f",1,(act::softmax_xentropy_loss<R>::template needTempMem<R>(A.size_no_bias(),im)),act::softmax_xentropy_loss<R>::f(A,im))});
	CHECK((int)A.rows()==r&&(int)A.cols()==c+bias&&A.emulatesBiases()==bias,"%s: shape",g_var);
	cmpM(A,[&](int i,int j)->double{ if(j==c) return 1; double m=-1e9,s=0; for(int q=0;q<c;q++) m=std::max(m,v(i+r*q)); for(int q=0;q<c;q++) s+=std::exp(v(i+r*q)-m); return std::exp(v(i+r*j)-m)/s; },tol<R>());
	for(int i=0;i<r;i++){ double s=0; for(int j=0;j<c;j++){ CHECK(A.get(i,j)>=0&&A.get(i,j)<=R(1)+R(1e-6),"%s: probability %g",g_var,(double)A.get(i,j)); s+=A.get(i,j); } CHECK(near(s,1,tol<R>()),"%s: row %d sums to %g | %s",g_var,i,s,g_ctx.c_str()); } }
BOTH(softmaxParts){ typedef IMT<R> IM; SZ int n=r*c; int code=n<=2?mc::choose(n==1?4:16):mc::choose(4); auto v=[&](int k){ return n==1?ZV[code]:n==2?ZV[k?code/4:code%4]:ZV[(k*(code+1)+code+k/5)%4]; }; auto A=mk<R>(r,c,false,false,[&](int i,int j){ return v(i+r*j); }); auto a0=snap(A); Vec<R> mx(r),den(r*4),num(n); for(int i=0;i<r;i++){ double m=-9; for(int j=0;j<c;j++) m=std::max(m,v(i+r*j)); mx[i]=R(m); } R*M=mx,*D=den,*N=num; ctx("%dx%d",r,c); auto need=[&](IM&im){ return im.mrwSum_needTempMem(A); };
	std::vector<Var<IM>> vs={VARN("softmax_parts",1,need(im),im.softmax_parts(A,M,D,N)),VARN("softmax_parts_st",0,need(im),im.softmax_parts_st(A,M,D,N)),VARN("softmax_parts_mt",2,need(im),im.softmax_parts_mt(A,M,D,N)),VARN("softmax_parts_st_rw",0,need(im),im.softmax_parts_st_rw(A,M,D,N)),VARN("softmax_parts_st_cw",0,need(im),im.softmax_parts_st_cw(A,M,D,N)),VARN("softmax_parts_mt_rw",2,need(im),im.softmax_parts_mt_rw(A,M,D,N))}; if(c>3) vs.push_back(VARN("softmax_parts_mt_cw",2,need(im),im.softmax_parts_mt_cw(A,M,D,N)));
	exec<IM>(vs); auto ex=[&](int i,int j){ return std::exp(v(i+r*j)-(double)mx[i]); }; cmpV(N,n,[&](int k){ return ex(k%r,k/r); },tol<R>(),"numerator"); cmpV(D,r,[&](int i){ double s=0; for(int j=0;j<c;j++) s+=ex(i,j); return s; },tol<R>(),"denominator"); same(A,a0,"source"); }
