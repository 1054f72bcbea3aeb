// Weight updates: the real grad_works (optimizers, momentum, individual learning rates, regularizers, max-norm, learning
// rate dropout) over sequences of gradients, against the published update rules.
#include "netx.hpp"
#include "nntl/grad_works/grad_works.h"
namespace la=loss_addendum;
static int pool(){ int k=mc::choose(3); g_order=k==2; return k?3:1; }
static const char* TN[]={"Classical","RMSProp_Hinton","RMSProp_Graves","RProp","ModProp","Adam","AdaMax","Nadam","Radam"};
struct Cfg{ int type=0, mom=0; double mu=0.5; int ilr=0; double l1=0,l2=0; bool l1b=false,l2b=false; int mn=0; double mn2=1; double lrd=1; bool lrdn=true; double lr=0.125,b1=0.75,b2=0.5,gamma=0.25,eps=0.001; };
typedef std::vector<double> V;
// reference
struct Ref{ Cfg c; int r,cc; V W,Vw,A,B,gain,prev; double b1t=1,b2t=1; bool first=true; Ref(Cfg c_,int r_,int cc_,V w):c(c_),r(r_),cc(cc_),W(w),Vw(w.size(),0.),A(w.size(),0.),B(w.size(),0.),gain(w.size(),1.),prev(w.size(),0.){}
	void maxnorm(){ if(!c.mn) return; for(int i=0;i<r;i++){ double s=0; for(int j=0;j<cc-(c.mn==2?0:1);j++) s+=W[i+j*r]*W[i+j*r]; if(s>c.mn2) for(int j=0;j<cc;j++) W[i+j*r]*=std::sqrt(c.mn2/s); } }
	void pre(std::function<double()> rnd){ if(c.mom!=2) return; size_t n=W.size(); std::vector<double> u(n,0.); if(c.lrd<1&&c.lrdn) for(size_t i=0;i<n;i++) u[i]=rnd(); for(size_t i=0;i<n;i++){ Vw[i]*=c.mu; if(!(c.lrd<1&&c.lrdn)||u[i]<c.lrd) W[i]-=Vw[i]; } maxnorm(); }
	void step(V g,std::function<double()> rnd){ size_t n=W.size(); auto sgn=[](double x){ return x>0?1.:x<0?-1.:0.; };
		for(size_t i=0;i<n;i++){ bool bias=(int)(i/r)==cc-1; if(!bias||c.l1b) g[i]+=c.l1*sgn(W[i]); } for(size_t i=0;i<n;i++){ bool bias=(int)(i/r)==cc-1; if(!bias||c.l2b) g[i]+=c.l2*W[i]; }
		bool f=first; first=false; if(f){ b1t=b2t=1; } if(c.type>=5){ b1t*=c.b1; b2t*=c.b2; }
		for(size_t i=0;i<n;i++){ double w=g[i]; switch(c.type){
			case 0: g[i]=c.lr*w; break; case 3: g[i]=c.lr*sgn(w); break;
			case 1: if(f){ A[i]=w*w; g[i]=c.lr*w; } else { A[i]=c.b1*A[i]+(1-c.b1)*w*w; g[i]=c.lr*w/(std::sqrt(A[i])+c.eps); } break;
			case 2: if(f){ A[i]=w*w; B[i]=w; g[i]=c.lr*w; } else { A[i]=c.b1*A[i]+(1-c.b1)*w*w; B[i]=c.b1*B[i]+(1-c.b1)*w; g[i]=c.lr*w/std::sqrt(A[i]-B[i]*B[i]+c.eps); } break;
			case 4: if(f){ A[i]=std::fabs(w); g[i]=c.lr*w; } else { A[i]=c.b1*A[i]+(1-c.b1)*std::fabs(w); g[i]=c.lr*w/(A[i]+c.eps); } break;
			case 5: A[i]=c.b1*A[i]+(1-c.b1)*w; B[i]=c.b2*B[i]+(1-c.b2)*w*w; g[i]=c.lr*std::sqrt(1-b2t)/(1-b1t)*A[i]/(std::sqrt(B[i])+c.eps); break;
			case 6: A[i]=c.b1*A[i]+(1-c.b1)*w; B[i]=std::max(std::fabs(w),c.b2*B[i]); g[i]=c.lr/(1-b1t)*A[i]/(B[i]+c.eps); break;
			default:{ double mu_t=(c.b1-b1t)/(1-b1t), et=(c.b2-b2t)/(1-b2t); B[i]=et*B[i]+(1-et)*w*w; A[i]=mu_t*A[i]+(1-mu_t)*w; double mh=c.type==7?c.b1*(1-b1t)/(1-c.b1*b1t)*A[i]+(1-mu_t)*w:(1-c.gamma)*A[i]+c.gamma*w; g[i]=c.lr*mh/(std::sqrt(B[i])+c.eps); } } }
		if(c.ilr){ bool vel=c.ilr==2&&c.mom; if(!f) for(size_t i=0;i<n;i++){ double cond=g[i]*(vel?Vw[i]:prev[i]); if(cond>0&&gain[i]<1.8) gain[i]*=1.5; else if(cond<0&&gain[i]>0.6) gain[i]*=0.5; g[i]*=gain[i]; } if(!vel) prev=g; }
		if(c.mom==2) for(size_t i=0;i<n;i++) Vw[i]+=g[i]; else if(c.mom==1){ for(size_t i=0;i<n;i++){ Vw[i]=c.mu*Vw[i]+g[i]; g[i]=Vw[i]; } }
		std::vector<double> u(n,0.); if(c.lrd<1) for(size_t i=0;i<n;i++) u[i]=rnd(); for(size_t i=0;i<n;i++) if(!(c.lrd<1)||u[i]<c.lrd) W[i]-=g[i]; maxnorm(); }
	double loss()const{ double s=0; for(size_t i=0;i<W.size();i++){ bool bias=(int)(i/r)==cc-1; if(!bias||c.l1b) s+=c.l1*std::fabs(W[i]); if(!bias||c.l2b) s+=c.l2*W[i]*W[i]/2; } return s; }
};
static double gpat(int p,int k,int st){ switch(p){ case 0: return ((k*3+st*5)%7-3)*0.5; case 1: return (k+st)%2?0.:1.5-(k%3); case 2: return (k%2?1:-1)*(st%2?0.25:-2); case 3: return st==1?0:(k%5)*0.5-0.75; } return 0; }
// random numbers: step index makes the masks of consecutive draws differ
static double upat(int p,int k){ static const double U[]={0.1,0.6,0.49,0.5,0.9,0.3}; return U[(k*(2*p+1)+p)%6]; }
template<class GW,class R> static void setup(GW&g,const Cfg&c,bool full){
	g.learning_rate(R(c.lr)); g.set_type((typename GW::GradType)c.type); g.beta1(R(c.b1)); g.beta2(R(c.b2)); g.gamma(R(c.gamma)); g.numeric_stabilizer(R(c.eps)); if(c.mom==1) g.momentum(R(c.mu)); else if(c.mom==2) g.nesterov_momentum(R(c.mu));
	if(c.mn){ if(c.mn==2) g.max_norm2(R(c.mn2),true); else g.max_norm(R(std::sqrt(c.mn2)),false); } if(c.lrd<1) g.LRDropoutPercentActive(R(c.lrd)).setApplyLRDropoutToNesterovMomentum(c.lrdn); }
template<class R,class GW> static void drive(const Cfg&c0,int r,int cc,int gp,int up,int W_,bool exactMem,std::function<void(GW&)> extra,int steps){
	typedef HI<R> I; Cfg c=c0; g_W=W_; typename I::iMath_t im; typename I::iRng_t rg; typename I::iInspect_t ii; bool nl=false; nntl::_impl::common_nn_data<I> cd(im,rg,ii,nl); cd.init(4,4); double tol=sizeof(R)==4?3e-4:1e-10;
	GW gw(R(0.5)); setup<GW,R>(gw,c,true); if(extra) extra(gw);
	auto w0=[&](int k){ return ((k*5)%9-4)*0.25; }; Mx<R> W=mk<R>(r,cc,false,false,[&](int i,int j){ return w0(i+j*r); }), G=mkj<R>(r,cc); V rw(r*cc); for(int k=0;k<r*cc;k++) rw[k]=w0(k);
	for(int life=0;life<2;life++){ Ref ref(c,r,cc,rw); CHECK(gw.gw_init(cd,W),"gw_init failed"); CHECK(im.init(),"math init"); CHECK(gw.isFirstRun(),"first run flag must be set by init"); bool la=c.l1!=0||c.l2!=0; CHECK(gw.hasLossAddendum()==la,"hasLossAddendum");
		int n=life?2:steps; for(int st=0;st<n;st++){ if(st==2){ gw.learning_rate(R(c.lr*2)); ref.c.lr=c.lr*2; CHECK(gw.learning_rate()==R(c.lr*2),"learning_rate"); }
			int k1=st*7,k2=st*7; g_rng=[&]{ return upat(up,k1++); }; auto rr=[&]{ return upat(up,k2++); };
			auto cmp=[&](const char* what){ CHECK((int)W.rows()==r&&(int)W.cols()==cc,"weights shape after %s",what); uint64_t h=life*10+st; for(int k=0;k<r*cc;k++){ double a=(double)W.data()[k]; mc::C().checks++; if(!near(a,ref.W[k],tol)) mc::fail("weight %d after %s %d of life %d is %.9g, must be %.9g | %s",k,what,st,life,a,ref.W[k],g_ctx.c_str()); float q=(float)(std::floor(a*4096)); h=mc::hmix(h,mc::hbytes(&q,4)); } mc::outcome(h); };
			if(la){ double L=gw.lossAddendum(W); CHECK(near(L,ref.loss(),tol),"loss addendum is %g, must be %g | %s",L,ref.loss(),g_ctx.c_str()); cmp("lossAddendum"); }
			gw.pre_training_fprop(W); ref.pre(rr); cmp("pre_training_fprop"); V g(r*cc); for(int k=0;k<r*cc;k++){ g[k]=gpat(gp,k,st+life*3); G.data()[k]=R(g[k]); } gw.apply_grad(W,G); CHECK((int)G.rows()==r&&(int)G.cols()==cc,"gradient shape"); ref.step(g,rr); CHECK(k1==k2,"random numbers used: %d, must be %d",k1,k2); cmp("apply_grad"); mc::op(2); CHECK(!gw.isFirstRun(),"first run flag"); }
		rw=V(r*cc); for(int k=0;k<r*cc;k++) rw[k]=(double)W.data()[k]; if(life==0){ gw.learning_rate(R(c.lr)); } gw.gw_deinit(); im.deinit(); }
	uint64_t h=mc::hbytes(mc::C().scn,strlen(mc::C().scn)); for(size_t i=0;i<mc::C().pos;i++) h=mc::hmix(h,mc::C().pick[i]); mc::state(h); mc::sample("%s",g_ctx.c_str()); }
#define SHAPE static const int SR[]={1,2,3,4},SC[]={2,2,3,5}; int q=mc::choose(mc::thorough()?4:3); int r=SR[q],cc=SC[q];
static Cfg common(){ Cfg c; c.type=mc::choose(9); c.mom=mc::choose(3); static const double MU[]={0.5,0.9}; if(c.mom&&mc::thorough()) c.mu=MU[mc::choose(2)]; return c; }
static void say(const Cfg&c,int r,int cc,int gp,int up,int W){ ctx("%s %dx%d momentum %d(%g) ILR %d L1 %g%s L2 %g%s maxnorm %d(%g) LRdropout %g/%d gradients %d masks %d threads %d",TN[c.type],r,cc,c.mom,c.mu,c.ilr,c.l1,c.l1b?"+bias":"",c.l2,c.l2b?"+bias":"",c.mn,c.mn2,c.lrd,c.lrdn,gp,up,W); }
// optimizer x momentum x max-norm x LR dropout
BOTH(opt_norm_drop){ SHAPE Cfg c=common(); mc::shard(); c.mn=mc::choose(3); if(c.mn) c.mn2=mc::choose(2)?1:0.25; int d=mc::choose(3); if(d){ c.lrd=0.5; c.lrdn=d==1; } int gp=mc::choose(4), up=d?mc::choose(3):0, W=pool(); say(c,r,cc,gp,up,W); drive<R,grad_works<HI<R>>>(c,r,cc,gp,up,W,true,nullptr,mc::thorough()?6:4); }
// optimizer x momentum x regularizers
BOTH(opt_regul){ SHAPE Cfg c=common(); mc::shard(); int l=1+mc::choose(8); if(l&1||l==8) { c.l1=0.25; c.l1b=l==3||l==7||l==8; } if(l&2||l==4||l>=6){ c.l2=0.5; c.l2b=l==6||l==7||l==8; } int gp=mc::choose(4), W=pool(); say(c,r,cc,gp,0,W); typedef grad_works<HI<R>> GW; drive<R,GW>(c,r,cc,gp,0,W,true,[&](GW&g){ if(c.l1) g.L1(R(c.l1),!c.l1b); if(c.l2) g.L2(R(c.l2),!c.l2b); },mc::thorough()?6:4); }
// individual learning rates
BOTH(opt_ilr){ SHAPE Cfg c=common(); mc::shard(); c.ilr=1+mc::choose(2); if(c.ilr==2&&!c.mom) throw mc::Skip(); int x=mc::choose(3); if(x==1) c.mn=1; if(x==2) c.lrd=0.5; int gp=mc::choose(4), W=pool(); say(c,r,cc,gp,0,W); typedef grad_works<HI<R>> GW; bool viaProps=mc::choose(2); drive<R,GW>(c,r,cc,gp,0,W,true,[&](GW&g){ if(viaProps) g.set_ILR(typename GW::IlrProps_t(R(0.5),R(1.5),R(0.6),R(1.8))); else g.set_ILR(R(0.5),R(1.5),R(0.6),R(1.8)); if(c.ilr==2) g.applyILRToMomentum(true); },mc::thorough()?7:5); }
// the reduced variants behave like the full one
BOTH(opt_plain){ SHAPE Cfg c=common(); mc::shard(); int k=mc::choose(2); int gp=mc::choose(4), W=pool(); c.mn=mc::choose(2); say(c,r,cc,gp,0,W); if(k) drive<R,grad_works_noILR<HI<R>>>(c,r,cc,gp,0,W,true,nullptr,4); else drive<R,grad_works_noILR_LA<HI<R>>>(c,r,cc,gp,0,W,true,nullptr,4); }
// ---- loss addenda on arbitrary values (activations): value, gradient, with and without pre-computation during fprop
template<class R,class LA> static void addend(const char* nm,bool decov,bool l1,bool onF,bool nz){ typedef HI<R> I; int r=dim(),c=dim(); mc::shard(); if(decov&&c<2) throw mc::Skip(); int vp=mc::choose(NPAT), gp=mc::choose(3); bool train=true; g_W=pool(); double tol=sizeof(R)==4?2e-4:1e-11; double sc=0.5;
	typename I::iMath_t im; typename I::iRng_t rg; typename I::iInspect_t ii; bool nl=false; nntl::_impl::common_nn_data<I> cd(im,rg,ii,nl); cd.init(VL(r),VL(r)); LA a; CHECK(!a.bEnabled(),"disabled by default"); a.scale(R(sc)); CHECK(a.bEnabled()&&a.scale()==R(sc),"scale"); im.preinit(1); CHECK(a.init(math::smatrix_td::mtx_size_t(VL(r),VL(c)),cd),"init"); CHECK(im.init(),"math");
	ctx("%s %dx%d values %d gradient %d threads %d",nm,r,c,vp,gp,g_W); int runs=2; for(int run=0;run<runs;run++){ int rr=run&&r>1?r-1:r; /* a smaller batch the second time */ auto fv=[&](int i,int j){ return pat((vp+run)%NPAT,i+j*rr)*0.5; }; auto fg=[&](int i,int j){ int k=i+j*rr; return gp==0?0.25*k:gp==1?(k%2?0.:1.):(k%3)-1.; };
		auto V=mk<R>(rr,c,false,false,fv), G=mk<R>(rr,c,false,false,fg); auto v0=snap(V); double L=a.lossAdd(V,cd); same(V,v0,"values"); V=mk<R>(rr,c,false,false,fv);
		std::vector<double> mu(c,0.),cc(c*c,0.); for(int j=0;j<c;j++){ for(int i=0;i<rr;i++) mu[j]+=fv(i,j)/rr; } for(int x=0;x<c;x++) for(int y=0;y<c;y++) for(int i=0;i<rr;i++) cc[x*c+y]+=(fv(i,x)-mu[x])*(fv(i,y)-mu[y])/rr;
		double e=0; if(decov){ for(int x=0;x<c;x++) for(int y=x+1;y<c;y++) e+=cc[x*c+y]*cc[x*c+y]; e/=c-1; } else for(int i=0;i<rr;i++) for(int j=0;j<c;j++) e+=l1?std::fabs(fv(i,j)):fv(i,j)*fv(i,j)/2; CHECK(near(L,sc*e,tol),"%s: loss addendum is %g, must be %g | %s",nm,L,sc*e,g_ctx.c_str());
		auto gr=[&](int i,int j){ if(decov){ double s=0; for(int q=0;q<c;q++) if(q!=j) s+=2*cc[j*c+q]*(fv(i,q)-mu[q])/rr; return s/(c-1); } double v=fv(i,j); return l1?(v>0?1.:v<0?-1.:0.):v; };
		if constexpr(LA::calcOnFprop) a.on_fprop(V,cd); a.dLossAdd(V,G,cd); g_var=nm; same(V,v0,"values"); cmpM(G,[&](int i,int j){ double g=fg(i,j); return nz&&g==0?0.:g+sc*gr(i,j); },tol); mc::op(); }
	a.deinit(); im.deinit(); uint64_t h=mc::hbytes(nm,strlen(nm)); for(size_t i=0;i<mc::C().pos;i++) h=mc::hmix(h,mc::C().pick[i]); mc::state(h); }
#include "nntl/loss_addendum/DeCov.h"
BOTH(la_L1){ addend<R,la::L1<R>>("L1",false,true,false,false); } BOTH(la_L1f){ addend<R,la::L1<R,true>>("L1 fprop",false,true,true,false); } BOTH(la_L1nz){ addend<R,la::L1<R,false,true>>("L1 nz",false,true,false,true); } BOTH(la_L1fnz){ addend<R,la::L1<R,true,true>>("L1 fprop nz",false,true,true,true); }
BOTH(la_L2){ addend<R,la::L2<R>>("L2",false,false,false,false); } BOTH(la_L2f){ addend<R,la::L2<R,true>>("L2 fprop",false,false,true,false); } BOTH(la_L2nz){ addend<R,la::L2<R,false,true>>("L2 nz",false,false,false,true); } BOTH(la_L2fnz){ addend<R,la::L2<R,true,true>>("L2 fprop nz",false,false,true,true); }
BOTH(la_DC){ addend<R,la::DeCov<R>>("DeCov",true,false,false,false); } BOTH(la_DCns){ addend<R,la::DeCov<R,true,true>>("DeCov ns lower",true,false,false,false); } BOTH(la_DCf){ addend<R,la::DeCov<R,false,false,true>>("DeCov fprop",true,false,true,false); } BOTH(la_DCnz){ addend<R,la::DeCov<R,true,false,false,true>>("DeCov nz",true,false,false,true); } BOTH(la_DCfnz){ addend<R,la::DeCov<R,false,true,true,true>>("DeCov fprop nz",true,false,true,true); }
