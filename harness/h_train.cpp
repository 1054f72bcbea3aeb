// The training loop: every call history of train()/fprop()/calcLossAndReport()/deinit() on one network against a model that
// runs the same epochs, batches and evaluations in long double.
#include <ostream>
static std::ostream g_nul(nullptr), *g_out=&g_nul;
#define STDCOUT(args) (*g_out << args)
#define STDCOUTL(args) (*g_out << args << std::endl)
#include "netx.hpp"
#include <sstream>
#include <iostream>
#include <set>
#include <map>
static std::vector<std::string> g_ev; static void ev(const char*f,...){ char b[120]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); g_ev.push_back(b); }
#include "nntl/nntl.h"
typedef double R; typedef long double LD; typedef math::smatrix<R> M; typedef math::smatrix_deform<R> MD;
static std::string g_h; static void H(const char*f,...){ char b[240]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); g_h+=b; }
#ifndef PA
#define PA 0 // 1: the hidden layer has an L2 penalty on its activations instead of a penalty on the output weights
#endif
#define CK(c,f,...) CHECK(c,f " | %s",##__VA_ARGS__,g_h.c_str())
// ---- the model: input 2, hidden sigmoid 2, output sigmoid 2 with quadratic loss, plain gradient descent, optional L2 on the output weights
struct Model{ LD w1[2][3],w2[2][3]; LD l2=0,la=0; static constexpr LD lr=0.5L; static LD sg(LD z){ return 1/(1+std::exp(-z)); }
	void fwd(const LD*x,LD*h,LD*o)const{ for(int n=0;n<2;n++) h[n]=sg(w1[n][0]*x[0]+w1[n][1]*x[1]+w1[n][2]); for(int n=0;n<2;n++) o[n]=sg(w2[n][0]*h[0]+w2[n][1]*h[1]+w2[n][2]); }
	LD pen()const{ LD s=0; for(int n=0;n<2;n++) for(int j=0;j<2;j++) s+=w2[n][j]*w2[n][j]; return l2*s/2; }
	void step(const std::vector<std::array<LD,2>>&x,const std::vector<std::array<LD,2>>&y){ LD g1[2][3]={},g2[2][3]={}; int m=(int)x.size(); for(int i=0;i<m;i++){ LD h[2],o[2]; fwd(x[i].data(),h,o); LD d[2]; for(int n=0;n<2;n++){ d[n]=(o[n]-y[i][n])*o[n]*(1-o[n]); g2[n][0]+=d[n]*h[0]/m; g2[n][1]+=d[n]*h[1]/m; g2[n][2]+=d[n]/m; } for(int k=0;k<2;k++){ LD e=(d[0]*w2[0][k]+d[1]*w2[1][k]+la*h[k])*h[k]*(1-h[k]); g1[k][0]+=e*x[i][0]/m; g1[k][1]+=e*x[i][1]/m; g1[k][2]+=e/m; } }
		for(int n=0;n<2;n++) for(int j=0;j<2;j++) g2[n][j]+=l2*w2[n][j]; for(int n=0;n<2;n++) for(int j=0;j<3;j++){ w1[n][j]-=lr*g1[n][j]; w2[n][j]-=lr*g2[n][j]; } } };
static Model g_m;
struct Set{ std::vector<std::array<LD,2>> x,y; }; static Set g_set[3]; static int g_nsets;
static int g_piece=0; // a set is evaluated in pieces of this many samples
static LD penA(int ds,int from){ LD s=0; for(size_t i=from;i<g_set[ds].x.size();i++){ LD h[2],o[2]; g_m.fwd(g_set[ds].x[i].data(),h,o); s+=h[0]*h[0]+h[1]*h[1]; } return g_m.la*s/2; }
static LD refLoss(int ds,bool full){ LD s=0; for(size_t i=0;i<g_set[ds].x.size();i++){ LD h[2],o[2]; g_m.fwd(g_set[ds].x[i].data(),h,o); for(int n=0;n<2;n++) s+=(o[n]-g_set[ds].y[i][n])*(o[n]-g_set[ds].y[i][n])/2; } s/=g_set[ds].x.size(); int n=(int)g_set[ds].x.size(); return s+(full?g_m.pen()+(g_m.la>0?penA(ds,g_piece>0?(n-1)/g_piece*g_piece:0):0):0); }
static bool near(LD a,LD b){ return std::fabs((double)(a-b))<=1e-9*(1+std::fabs((double)b)); }
static int rowOf(const M&x,int i,int ds){ for(size_t k=0;k<g_set[ds].x.size();k++) if(x.get(i,0)==(R)g_set[ds].x[k][0]&&x.get(i,1)==(R)g_set[ds].x[k][1]) return (int)k; return -1; }
static std::vector<std::array<LD,2>> g_bx; static std::vector<int> g_bi; static std::set<int> g_seen; static std::function<void()> g_cmpW; static bool g_act=false,g_wantAct=true; static int g_batch=0;
template<class RT> struct RecI: public inspector::_impl::_base<RT>{ bool isInspectorActive()const noexcept{ return g_act; } bool turn_on(bool b=true)const noexcept{ g_act=b; return true; } bool turn_off()const noexcept{ g_act=false; return true; }
	void init_nnet(size_t l,numel_cnt_t e)const noexcept{ ev("nnet %d %d",(int)l,(int)e); } void train_epochBegin(numel_cnt_t e,numel_cnt_t n)const noexcept{ ev("epoch %d/%d",(int)e,(int)n); g_seen.clear(); CK(g_act==g_wantAct,"the inspector is %s during training",g_act?"on":"off"); } void train_epochEnd()const noexcept{ ev("epochEnd"); } void train_batchBegin(numel_cnt_t b)const noexcept{ ev("batch %d",(int)b); }
	void train_preFprop(const M&x)const noexcept{ ev("x"); CK((int)x.batch_size()==g_batch,"a batch of %d samples, must be %d",(int)x.batch_size(),g_batch); g_bx.clear(); g_bi.clear(); for(int i=0;i<(int)x.rows();i++){ int k=rowOf(x,i,0); CK(k>=0,"row %d of a batch is not a training sample",i); CK(g_seen.insert(k).second,"sample %d twice in an epoch",k); g_bi.push_back(k); g_bx.push_back(g_set[0].x[k]); } }
	template<class T> void train_preBprop(const math::smatrix<T>&y)const noexcept{ ev("y"); std::vector<std::array<LD,2>> by; CK(y.rows()==(int)g_bi.size(),"labels of %d samples for %d inputs",(int)y.rows(),(int)g_bi.size()); for(int i=0;i<(int)y.rows();i++){ for(int j=0;j<2;j++) CK((R)y.get(i,j)==(R)g_set[0].y[g_bi[i]][j],"label %d of batch row %d belongs to another sample",j,i); by.push_back(g_set[0].y[g_bi[i]]); } g_m.step(g_bx,by); }
	void train_batchEnd()const noexcept{ ev("batchEnd"); g_cmpW(); } void train_preCalcError(int ds)const noexcept{ ev("eval %d",ds); } void train_postCalcError()const noexcept{ ev("evalEnd"); } };
typedef HI<R,RecI<R>> I; typedef nntl::grad_works<I> GWk; typedef nntl::weights_init::XavierFour WI; typedef nntl::layer_input<I> LIn; 
#if PA
typedef nntl::LFC_PA<std::tuple<nntl::loss_addendum::L2<R>>,nntl::activation::sigm<R,WI>,GWk> LH;
#else
typedef nntl::LFC<nntl::activation::sigm<R,WI>,GWk> LH;
#endif
 typedef nntl::layer_output<nntl::activation::sigm_quad_loss<R,WI>,GWk> LO; typedef nntl::layers<LIn,LH,LO> LP; typedef nntl::nnet<LP> NN; typedef NN::ErrorCode EC;
static void tick(const math::smatrix<R>&a,const math::smatrix<R>&y,int ds,int&row){ for(int i=0;i<(int)y.rows();i++,row++){ CK(row<(int)g_set[ds].x.size(),"set %d: more samples reported than it has",ds); LD h[2],o[2]; g_m.fwd(g_set[ds].x[row].data(),h,o); for(int j=0;j<2;j++){ CK((R)g_set[ds].y[row][j]==y.get(i,j),"set %d sample %d: reported label %g",ds,row,(double)y.get(i,j)); CK(near(a.get(i,j),o[j]),"set %d sample %d output %d is %.12g, must be %.12Lg",ds,row,j,a.get(i,j),o[j]); } } }
static bool g_obsFail=false; static bool g_full=false; static std::map<int,LD> g_frag;
struct Obs: public i_training_observer<R>{ int ds=-1,row=0; template<class T,class C> bool init(numel_cnt_t e,T&,const C&)noexcept{ ev("oinit %d",(int)e); return !g_obsFail; } void deinit()noexcept{ ev("odeinit"); } void report_results_begin(int d,numel_cnt_t b)noexcept{ ev("rep %d %d",d,(int)b); ds=d; row=0; } template<class Y,class C> void report_results(numel_cnt_t bi,const M&a,const math::smatrix<Y>&y,const C&)noexcept{ ev("r %d",(int)bi); CK(a.rows()==y.rows(),"%d outputs for %d labels",(int)a.rows(),(int)y.rows()); tick(a,y,ds,row); }
	void report_results_end(R v)noexcept{ ev("repEnd"); CK(row==(int)g_set[ds].x.size(),"set %d: %d of %d samples reported",ds,row,(int)g_set[ds].x.size()); LD e=refLoss(ds,g_full); if(PA&&g_full&&g_piece<row&&near(v,e)&&!near(v,refLoss(ds,false)+penA(ds,0))) mc::known("pa_last_piece","the activation penalty in the reported loss is that of the last evaluated piece of the set only, so the loss depends on maxFpropSize"); CK(near(v,e),"set %d: the reported loss is %.12g, must be %.12Lg",ds,v,e); }
	template<class T> void on_training_start(const T&,vec_len_t b,vec_len_t f,numel_cnt_t p)noexcept{ ev("start %d %d",(int)b,(int)f); CK(p==12,"%d parameters",(int)p); } void on_training_fragment_end(numel_cnt_t e,R a,R b,const std::chrono::nanoseconds&)noexcept{ ev("frag %d",(int)e); g_frag[(int)e]=refLoss(0,g_full); CK(near(a,refLoss(0,g_full))&&near(b,refLoss(1,g_full)),"epoch %d: losses %.12g %.12g, must be %.12Lg %.12Lg",(int)e,a,b,refLoss(0,g_full),refLoss(1,g_full)); } void on_training_end(const std::chrono::nanoseconds&)noexcept{ ev("end"); } };
typedef nntl::nnet_train_opts<R,Obs> TO; 
// in-memory data with an optional third dataset
struct TD final: public nntl::_inmem_train_data<TD,R,R>{ typedef nntl::_inmem_train_data<TD,R,R> B; MD x2,y2; int datasets_count()const noexcept{ return x2.empty()?2:3; } numel_cnt_t dataset_samples_count(int d)const noexcept{ return X(d).batch_size(); } const MD& X(int d)const noexcept{ return d==2?x2:B::X(d); } const MD& Y(int d)const noexcept{ return d==2?y2:B::Y(d); } MD& X_mutable(int d)noexcept{ return d==2?x2:B::X_mutable(d); } MD& Y_mutable(int d)noexcept{ return d==2?y2:B::Y_mutable(d); } };
static void fillSets(int ntr,int nte,int ypat,int extra=0){ g_nsets=2+(extra>0); int n[3]={ntr,nte,extra}; for(int s=0;s<g_nsets;s++){ g_set[s].x.clear(); g_set[s].y.clear(); for(int i=0;i<n[s];i++){ g_set[s].x.push_back({(LD)(R)((i*3+s*5)%7*0.25-0.75+i*0.03125),(LD)(R)((i*5+s*2)%9*0.125-0.5)}); g_set[s].y.push_back({(LD)(R)(((i+s+ypat)%3)*0.5),(LD)(R)(((i*2+s)%4)*0.25)}); } } }
static M mtx(int s,bool x){ MD m; if(x) m.will_emulate_biases(); int n=(int)g_set[s].x.size(); if(!m.resize(n,2)) mc::fail("alloc"); for(int i=0;i<n;i++) for(int j=0;j<2;j++) m.set(i,j,(R)(x?g_set[s].x[i][j]:g_set[s].y[i][j])); return std::move(m); }
static MD mtxd(int s,bool x){ MD m; if(x) m.will_emulate_biases(); int n=(int)g_set[s].x.size(); if(!m.resize(n,2)) mc::fail("alloc"); for(int i=0;i<n;i++) for(int j=0;j<2;j++) m.set(i,j,(R)(x?g_set[s].x[i][j]:g_set[s].y[i][j])); return m; }
struct Fix{ LIn i; LH h; LO o; LP lp; NN nn; TD td; Fix():i(2),h(2,R(0.5)),o(2,R(0.5)),lp(i,h,o),nn(lp){ g_act=false; }
	void data(){ if(!td.absorb(mtxd(0,true),mtxd(0,false),mtxd(1,true),mtxd(1,false))) mc::fail("absorb"); }
	void weights(int pat){ M a(2,3),b(2,3); for(int n=0;n<2;n++) for(int j=0;j<3;j++){ a.set(n,j,g_m.w1[n][j]=(R)(((n*3+j*5+pat*2)%7-3)*0.375)); b.set(n,j,g_m.w2[n][j]=(R)(((n*2+j*3+pat)%5-2)*0.625)); } CK(h.set_weights(std::move(a))&&o.set_weights(std::move(b)),"weights refused"); }
	void cmpW(){ for(int n=0;n<2;n++) for(int j=0;j<3;j++){ CK(near(h.get_weights().get(n,j),g_m.w1[n][j]),"hidden weight (%d,%d) is %.12g, must be %.12Lg",n,j,h.get_weights().get(n,j),g_m.w1[n][j]); CK(near(o.get_weights().get(n,j),g_m.w2[n][j]),"output weight (%d,%d) is %.12g, must be %.12Lg",n,j,o.get_weights().get(n,j),g_m.w2[n][j]); } }
	void l2(R s){
#if PA
		g_m.l2=0; g_m.la=s; h.addendum<0>().scale(s);
#else
		g_m.l2=s; if(s>0) o.get_gradWorks().L2(s,true);
#endif
	} };
struct Cfg{ int batch=0,maxF=0,epochs=1,cond=0,stride=1,from=1; int divE=5; R thr=R(1e5); bool timeOnly=false,imd=false,full=true,forceTD=true,insp=true; int stop=-1; int cb=0; bool obsFail=false,initFail=false; };
static void evalEv(std::vector<std::string>&e,int ds,int bs){ char b[60]; int n=(int)g_set[ds].x.size(), c=(n+bs-1)/bs; snprintf(b,60,"eval %d",ds); e.push_back(b); snprintf(b,60,"rep %d %d",ds,c); e.push_back(b); for(int i=0;i<c;i++){ snprintf(b,60,"r %d",i); e.push_back(b); } e.push_back("repEnd"); e.push_back("evalEnd"); }
static bool condAt(const Cfg&c,int e){ if(e==c.epochs-1) return true; if(c.cond==0) return true; if(c.cond==1) return false; int st=c.cond==2?c.stride:c.from; return e+1>=st&&(e+1-st)%c.stride==0; }
static TO mkOpts(const Cfg&c){ return c.cond==0?TO(c.epochs,true):c.cond==1?TO(c.epochs,false):c.cond==2?TO((numel_cnt_t)c.epochs,(numel_cnt_t)c.stride):TO((numel_cnt_t)c.epochs,(numel_cnt_t)c.from,(numel_cnt_t)c.stride); }
static int g_tdF=0,g_tdB=0; // what the training data is initialised for (0 - nothing)
// one call of train(): the events it must produce are computed while it runs (the reference weights follow the batches)
static bool train(Fix&f,const Cfg&c){
	int ntr=(int)g_set[0].x.size(), nte=(int)g_set[1].x.size(), big=std::max(ntr,nte); H(" train(batch=%d maxF=%d epochs=%d cond=%d/%d/%d div=%d/%g timeOnly=%d imd=%d full=%d force=%d stop=%d cb=%d of=%d if=%d)",c.batch,c.maxF,c.epochs,c.cond,c.from,c.stride,c.divE,c.thr,c.timeOnly,c.imd,c.full,c.forceTD,c.stop,c.cb,c.obsFail,c.initFail);
	int bs=c.batch==0||c.batch>ntr?ntr:c.batch, mf=c.maxF==0||c.maxF>big?big:c.maxF; if(mf<bs) mf=bs;
	// without bForceReinitTD an initialised data object stays as it is when it fits the request
	bool okF=c.maxF==0||c.maxF==g_tdF, okB=c.batch==0||c.batch==g_tdB||(g_tdB<ntr&&c.batch<g_tdB); if(!c.forceTD&&g_tdF&&okF&&okB&&(c.batch?c.batch:g_tdB)<=g_tdF){ mf=g_tdF; bs=c.batch?c.batch:g_tdB; } else { g_tdF=mf; g_tdB=bs; } if(c.imd) g_tdF=g_tdB=0;
	g_batch=bs; g_full=c.full&&(g_m.l2>0||g_m.la>0); g_piece=mf; g_obsFail=c.obsFail; g_wantAct=true; bool act0=c.epochs&1; g_act=act0; g_frag.clear(); if(!c.insp) g_wantAct=act0; g_cmpW=[&]{ f.cmpW(); };
	TO o=mkOpts(c); o.batchSize(c.batch).maxFpropSize(c.maxF).divergenceCheckLastEpoch((int16_t)c.divE).divergenceCheckThreshold(c.thr).calcFullLossValue(c.full).ImmediatelyDeinit(c.imd).bReportOnlyTime(c.timeOnly).bForceReinitTD(c.forceTD).bForceInspectorOnDuringTraining(c.insp);
	CK(o.maxEpoch()==c.epochs,"maxEpoch"); g_ev.clear(); std::vector<LD> lossAt; std::vector<int> cbs; MD probe;
	auto ec=f.nn.train<false>(f.td,o,[&](numel_cnt_t e)->bool{ ev("cb %d",(int)e); if(c.cb==1||c.cb==2||c.cb==4){ int n=c.cb==1?1:c.cb==2?mf:mf+2; MD x; x.will_emulate_biases(); x.resize(n,2); for(int i=0;i<n;i++) for(int j=0;j<2;j++) x.set(i,j,(R)g_set[0].x[i%ntr][j]); CK(f.nn.fprop(x)==EC::Success,"fprop from the callback"); g_ev.pop_back(); const auto&a=f.o.get_activations(); for(int i=0;i<n;i++){ LD h[2],q[2]; g_m.fwd(g_set[0].x[i%ntr].data(),h,q); CK(near(a.get(i,0),q[0])&&near(a.get(i,1),q[1]),"fprop from the callback"); } } else if(c.cb==3){ auto k=g_ev.size(); Obs ob; f.nn.calcLossAndReport(f.td,1,ob); g_ev.resize(k); } return (int)e!=c.stop; },[&]{ ev("onInit"); return c.initFail?EC::PostInitStopFromCallback:EC::Success; });
	std::vector<std::string> x; char b[80]; auto add=[&](const char*fm,int p=0,int q=0){ snprintf(b,80,fm,p,q); x.push_back(b); };
	add("nnet 3 %d",c.epochs); add("onInit"); EC want=EC::Success; bool ambiguous=false;
	if(c.initFail) want=EC::PostInitStopFromCallback; else { add("oinit %d",c.epochs);
		if(c.obsFail) want=EC::CantInitializeObserver; else { add("start %d %d",bs,mf); evalEv(x,0,mf); evalEv(x,1,mf); add("frag -1");
			for(int e=0;e<c.epochs;e++){ add("epoch %d/%d",e,ntr/bs); for(int k=0;k<ntr/bs;k++){ add("batch %d",k); add("x"); add("y"); add("batchEnd"); } bool chk=e<c.divE;
				if((condAt(c,e)||chk)&&!(c.timeOnly&&!chk)){ evalEv(x,0,mf); evalEv(x,1,mf); add("frag %d",e); if(chk&&g_frag.count(e)){ if(std::fabs((double)(g_frag[e]-c.thr))<1e-9) ambiguous=true; if(g_frag[e]>=c.thr){ want=EC::NNDiverged; break; } } }
				add("epochEnd"); add("cb %d",e); if(e==c.stop) break; }
			if(want==EC::Success&&!c.timeOnly) add("end"); add("odeinit"); } }
	if(ambiguous) throw mc::Skip();
	for(size_t k=0;k<std::max(x.size(),g_ev.size());k++) CK(k<x.size()&&k<g_ev.size()&&x[k]==g_ev[k],"event %d is \"%s\", must be \"%s\"",(int)k,k<g_ev.size()?g_ev[k].c_str():"(none)",k<x.size()?x[k].c_str():"(none)");
	CK(ec==want&&f.nn.get_last_error()==want,"train() answered %d, must answer %d (last error %d)",(int)ec,(int)want,(int)f.nn.get_last_error()); CK(g_act==act0||!c.insp,"the inspector's switch was not restored"); f.cmpW();
	mc::state(std::hash<std::string>()(g_h)); CK(f.nn.is_initialized(1,1)==!c.imd,"after train() the network is %sinitialised",c.imd?"still ":"not "); mc::op(); mc::outcome((uint64_t)want*1000+g_ev.size()); return want==EC::Success; }
static void perm(){ int k=mc::choose(2); g_rngI=[k](ptrdiff_t lt){ return k?(ptrdiff_t)((lt*3+1)%5)%lt:(ptrdiff_t)0; }; H(" perm=%d",k); }
static void fp(Fix&f,int n){ H(" fprop(%d)",n); MD x; x.will_emulate_biases(); x.resize(n,2); int ntr=(int)g_set[0].x.size(); for(int i=0;i<n;i++) for(int j=0;j<2;j++) x.set(i,j,(R)g_set[0].x[i%ntr][j]); CK(f.nn.fprop(x)==EC::Success,"fprop failed"); const auto&a=f.o.get_activations(); CK((int)a.rows()==n,"%d outputs for %d inputs",(int)a.rows(),n); for(int i=0;i<n;i++){ LD h[2],q[2]; g_m.fwd(g_set[0].x[i%ntr].data(),h,q); CK(near(a.get(i,0),q[0])&&near(a.get(i,1),q[1]),"output of sample %d is wrong after the history",i); } f.cmpW(); }
static void sizes(Cfg&c,int ntr,int nte,int extraB=1){ c.batch=mc::choose(ntr+1+extraB); int big=std::max(ntr,nte); if(c.batch==0) c.maxF=0; else { int k=mc::choose(big-std::min(c.batch,big)+3); c.maxF=k==0?0:c.batch+k-1; } }
static void setup(Fix&f,int ntr,int nte,R l2){ g_W=2; g_order=0; fillSets(ntr,nte,0); g_tdF=g_tdB=0; f.data(); f.weights(ntr+nte); f.l2(l2); }
SCENARIO(single){ g_h.clear(); int ntr=1+mc::choose(mc::thorough()?5:4), nte=1+mc::choose(2); Cfg c; sizes(c,ntr,nte); mc::shard(); Fix f; R l2=mc::choose(2)?R(0.25):R(0); setup(f,ntr,nte,l2); H("single train=%d test=%d l2=%g",ntr,nte,l2); c.epochs=1+mc::choose(3); c.cond=mc::choose(4); if(c.cond>1){ c.stride=1+mc::choose(c.epochs); if(c.cond==3) c.from=1+mc::choose(c.epochs); } static const int DE[]={0,1,5,-2}; c.divE=DE[mc::choose(3)]; c.thr=mc::choose(2)?R(0.16):R(1e5); c.timeOnly=mc::choose(2); c.full=l2>0?mc::choose(2):1; c.stop=mc::choose(2)?c.epochs-2:-1; perm(); mc::state(std::hash<std::string>()(g_h)); train(f,c); fp(f,1+(c.epochs&1)*3); mc::sample("%s",g_h.c_str()); g_rngI=nullptr; }
#if !PA
SCENARIO(callbacks){ g_h.clear(); int ntr=1+mc::choose(4), nte=1+mc::choose(2); Cfg c; sizes(c,ntr,nte,0); mc::shard(); Fix f; setup(f,ntr,nte,0); H("callbacks train=%d test=%d",ntr,nte); c.epochs=2; c.cb=mc::choose(5); c.imd=mc::choose(2); c.insp=mc::choose(2); c.divE=mc::choose(2)*5; c.initFail=mc::choose(2); c.obsFail=!c.initFail&&mc::choose(2); perm(); mc::state(std::hash<std::string>()(g_h)); train(f,c); Cfg d; d.batch=c.batch; d.maxF=c.maxF; d.forceTD=mc::choose(2); train(f,d); mc::sample("%s",g_h.c_str()); g_rngI=nullptr; }
#endif
SCENARIO(history){ g_h.clear(); int ntr=1+mc::choose(mc::thorough()?4:3), nte=1+mc::choose(2); Fix f; Cfg a,b; sizes(a,ntr,nte,0); sizes(b,ntr,nte,0); mc::shard(); R l2=mc::choose(2)?R(0.25):R(0); setup(f,ntr,nte,l2); H("history train=%d test=%d l2=%g",ntr,nte,l2); a.imd=mc::choose(2); b.forceTD=mc::choose(2); b.full=mc::choose(2); perm(); mc::state(std::hash<std::string>()(g_h)); int pre=mc::choose(3); if(pre) fp(f,pre==1?1:5); train(f,a); int k=mc::choose(6); switch(k){ case 1: fp(f,1); break; case 2: fp(f,ntr+2); break; case 3: f.nn.deinit(); H(" deinit"); break; case 4: f.nn.require_reinit(); H(" require_reinit"); break; case 5: f.td.deinit4all(); g_tdF=g_tdB=0; H(" td.deinit"); break; } train(f,b); int q=mc::choose(3); if(q==1) train(f,a); else if(q==2) fp(f,2); mc::sample("%s",g_h.c_str()); g_rngI=nullptr; }

#if !PA
// ---- rejected input: an error code, no callbacks, nothing changed; the network stays usable
SCENARIO(rejects){ g_h.clear(); mc::shard(); int bad=mc::choose(4), before=mc::choose(2); H("rejects %d",bad); Fix f; setup(f,2,1,0); mc::state(bad*2+before); Cfg c; c.batch=1; perm(); if(before) train(f,c); TO o(1); g_ev.clear(); bool called=false; TD t2; int xw=bad==1?3:2,yw=bad==2?1:2; if(bad!=0){ MD a,b,x,y; a.will_emulate_biases(); x.will_emulate_biases(); a.resize(2,xw); x.resize(1,xw); b.resize(2,yw); y.resize(1,yw); a.zeros(); x.zeros(); a.set_biases(); x.set_biases(); b.zeros(); y.zeros(); if(!t2.absorb(std::move(a),std::move(b),std::move(x),std::move(y))) mc::fail("absorb"); }
	if(bad==3) throw mc::Skip(); auto ec=f.nn.train<false>(t2,o,[&](numel_cnt_t){ called=true; return true; },[&]{ called=true; return EC::Success; }); EC want=bad==0?EC::InvalidTD:bad==1?EC::InvalidInputLayerNeuronsCount:EC::InvalidOutputLayerNeuronsCount; CK(ec==want&&f.nn.get_last_error()==want,"train() answered %d, must answer %d",(int)ec,(int)want); CK(!called&&g_ev.empty(),"callbacks were called for rejected data"); CK(f.nn.is_initialized(1,1)==!!before,"rejecting data changed the state of the network"); mc::op(); mc::outcome(bad); if(before) f.cmpW(); train(f,c); g_rngI=nullptr; }
// ---- the library's observer and its evaluators: counts of correctly classified elements
template<class E> struct SO: public nntl::training_observer_stdcout<R,E>{ typedef nntl::training_observer_stdcout<R,E> B; static std::function<void(int,const SO&)> hook; numel_cnt_t tot(int d)const{ return this->m_classifRes[d].totalElements; } numel_cnt_t good(int d)const{ return this->m_classifRes[d].correctlyClassif; } void on_training_fragment_end(numel_cnt_t e,R a,R b,const std::chrono::nanoseconds&t)noexcept{ B::on_training_fragment_end(e,a,b,t); hook((int)e,*this); } }; template<class E> std::function<void(int,const SO<E>&)> SO<E>::hook;
struct Cap{ std::ostringstream s; std::streambuf*b; Cap(){ b=std::cout.rdbuf(s.rdbuf()); g_out=&s; } ~Cap(){ std::cout.rdbuf(b); g_out=&g_nul; } std::vector<std::string> lines(){ std::vector<std::string> r; std::istringstream i(s.str()); std::string l; while(std::getline(i,l)) r.push_back(l); return r; } };
template<class O> static void pct(const std::string&l,double loss,double er,long w,int d,const O&ob){ long bad=(long)(ob.tot(d)-ob.good(d)); double e=ob.tot(d)?100.0*bad/ob.tot(d):0; CK(w==bad&&std::fabs(er-e)<0.0051&&std::fabs(loss-(double)refLoss(d,g_full))<0.00051,"set %d: %ld wrong of %ld, loss %.6Lg, but the report says: %s",d,bad,(long)ob.tot(d),refLoss(d,g_full),l.c_str()); }
template<class O> static void printed(const std::string&l,int e,int E,const O&ob){ long a,b,w0,w1; double t,l0,l1,e0,e1; int sn=sscanf(l.c_str(),"%ld/%ld %lfs trL=%lf, trErr=%lf%% (%ld), vL=%lf, vErr=%lf%% (%ld)",&a,&b,&t,&l0,&e0,&w0,&l1,&e1,&w1); CK(sn==9&&a==e+1&&b==E&&t>=0,"the report of epoch %d of %d is: %s",e+1,E,l.c_str()); pct(l,l0,e0,w0,0,ob); pct(l,l1,e1,w1,1,ob); }
struct SS: public nntl::training_observer_simple_stdcout<R>{ typedef nntl::training_observer_simple_stdcout<R> B; static std::function<void(int)> hook; void on_training_fragment_end(numel_cnt_t e,R a,R b,const std::chrono::nanoseconds&t)noexcept{ B::on_training_fragment_end(e,a,b,t); hook((int)e); } }; std::function<void(int)> SS::hook;
SCENARIO(report_simple){ g_h.clear(); int ntr=1+mc::choose(4), nte=1+mc::choose(2); Cfg c; sizes(c,ntr,nte,0); mc::shard(); g_W=1; g_order=0; Fix f; int E=1+mc::choose(3); bool every=mc::choose(2); R l2=mc::choose(2)?R(0.25):R(0); setup(f,ntr,nte,l2); H("report_simple train=%d test=%d batch=%d maxF=%d epochs=%d every=%d l2=%g",ntr,nte,c.batch,c.maxF,E,every,l2); mc::state(std::hash<std::string>()(g_h)); perm(); g_batch=c.batch==0?ntr:c.batch; g_wantAct=true; g_full=l2>0; g_cmpW=[&]{ f.cmpW(); }; nntl::nnet_train_opts<R,SS> o(E,every); o.batchSize(c.batch).maxFpropSize(c.maxF).divergenceCheckLastEpoch(0);
	Cap cap; size_t n=1; SS::hook=[&](int e){ auto L=cap.lines(); CK(L.size()==++n,"%d lines, must be %d",(int)L.size(),(int)n); long a,b; double t,x,y; const char*l=L.back().c_str(); int sn=sscanf(l,"%ld/%ld %lfs trL=%lf, vL=%lf",&a,&b,&t,&x,&y); CK(sn==5&&a==e+1&&b==E&&t>=0&&std::fabs(x-(double)refLoss(0,g_full))<0.0000051&&std::fabs(y-(double)refLoss(1,g_full))<0.0000051,"epoch %d of %d: losses %.7Lg %.7Lg, but the report says: %s",e+1,E,refLoss(0,g_full),refLoss(1,g_full),l); }; auto ec=f.nn.train<false>(f.td,o); auto L=cap.lines(); CK(ec==EC::Success&&n==(every?E+2:3)&&L.size()==n+1&&L.back().find("Training time:")==0,"train() answered %d after %d lines",(int)ec,(int)L.size()); mc::op(); mc::outcome(L.size()); mc::sample("%s",g_h.c_str()); g_rngI=nullptr; }
template<class E> static void evalr(bool bin){ g_h.clear(); int ntr=1+mc::choose(3), nte=1+mc::choose(2), ex=mc::choose(3); Cfg c; sizes(c,ntr,nte,0); mc::shard(); g_W=1+mc::choose(2); g_order=0; Fix f; fillSets(ntr,nte,0,ex); int yp=mc::choose(1<<std::min(2*(ntr+nte)-1,mc::thorough()?8:6)), k=0; static const LD YV[]={0.25L,0.75L,0.5L,1,0}; for(int s=0;s<g_nsets;s++) for(auto&y:g_set[s].y){ if(bin) for(int j=0;j<2;j++,k++) y[j]=YV[((yp>>(k%8))&1)+((k&1)&&!((yp>>(k%8))&1)?3*(k%2):0)]; else { int b=(yp>>(k%8))&1; k++; y[b]=1; y[1-b]=k%3*0.25L; } }
	H("evaluator=%s train=%d test=%d extra=%d batch=%d maxF=%d threads=%d labels=%d",bin?"binary":"one-hot",ntr,nte,ex,c.batch,c.maxF,g_W,yp); mc::state(std::hash<std::string>()(g_h)); f.data(); if(ex){ f.td.x2=mtxd(2,true); f.td.y2=mtxd(2,false); } int wp=mc::choose(3); f.weights(wp); g_m.l2=0; perm(); R thr=bin&&mc::choose(2)?R(0.375):R(0.5);
	g_batch=c.batch==0?ntr:c.batch; g_wantAct=true; g_full=false; g_cmpW=[&]{ f.cmpW(); }; typedef SO<E> O; typedef nntl::nnet_train_opts<R,O> OT; OT o(2,true); o.batchSize(c.batch).maxFpropSize(c.maxF); if constexpr(std::is_same<E,nntl::eval_classification_binary_cached<R>>::value) o.observer().m_evaluator.set_threshold(thr);
	auto expect=[&](int d,const O&ob,const char*w){ int n=(int)g_set[d].x.size(),good=0; for(int i=0;i<n;i++){ LD h[2],q[2]; g_m.fwd(g_set[d].x[i].data(),h,q); if(bin){ for(int j=0;j<2;j++){ if(std::fabs((double)(q[j]-thr))<1e-9) throw mc::Skip(); good+=(q[j]>thr)==(g_set[d].y[i][j]>thr); } } else { if(std::fabs((double)(q[0]-q[1]))<1e-9) throw mc::Skip(); good+=(q[1]>q[0])==(g_set[d].y[i][1]>g_set[d].y[i][0]); } } CK(ob.tot(d)==(bin?2*n:n)&&ob.good(d)==good,"%s: set %d has %d of %d right, must have %d of %d",w,d,(int)ob.good(d),(int)ob.tot(d),good,bin?2*n:n); mc::outcome(good*8+n); };
	Cap cap; size_t lines=1; int frags=0; O::hook=[&](int e,const O&ob){ frags++; auto L=cap.lines(); CK(L.size()==++lines,"%d lines printed, must be %d",(int)L.size(),(int)lines); printed(L.back(),e,2,ob); expect(0,ob,"fragment"); expect(1,ob,"fragment"); CK(near(ob.m_lastTrainErr,refLoss(0,false))&&near(ob.m_lastTestErr,refLoss(1,false)),"losses kept by the observer"); }; g_ev.clear();
	auto ec=f.nn.train<false>(f.td,o,[&](numel_cnt_t){ if(ex){ R l=f.nn.calcLossAndReport(f.td,2,o.observer()); CK(near(l,refLoss(2,false)),"loss of the extra set is %.12g, must be %.12Lg",l,refLoss(2,false)); expect(2,o.observer(),"extra set"); auto L=cap.lines(); CK(L.size()==++lines,"%d lines printed, must be %d",(int)L.size(),(int)lines); char nm[100]; f.td.get_dataset_naming_function()(2,nm,100); double l2,er; long w; std::string pre=std::string(nm)+": "; bool sn=L.back().compare(0,pre.size(),pre)==0&&sscanf(L.back().c_str()+pre.size(),"Loss=%lf, Err=%lf%% (%ld)",&l2,&er,&w)==3; CK(sn,"the report of the extra set is: %s",L.back().c_str()); pct(L.back(),l2,er,w,2,o.observer()); } return true; }); { auto L=cap.lines(); long a,b,c0,d,e,g,h,p; CK(L.size()==lines+1&&L.back().find("Training time:")==0,"last line is: %s",L.back().c_str()); int sn=sscanf(L[0].c_str(),"Model f:%ld->%ld has %ld params. There are %ld training samples and %ld for testing. BatchSize=%ld, batchCnt=%ld, maxFpropSize=%ld",&a,&b,&p,&c0,&d,&e,&g,&h); CK(sn==8&&a==2&&b==2&&p==12&&c0==ntr&&d==nte&&e==g_batch&&g==ntr/g_batch&&h>=g_batch&&h==(c.maxF?std::min<long>(c.maxF,std::max({ntr,nte,ex})):std::max({ntr,nte,ex})),"the first line is: %s",L[0].c_str()); } CK(ec==EC::Success&&frags==3,"train() answered %d after %d reports",(int)ec,frags); mc::op(); mc::sample("%s",g_h.c_str()); g_rngI=nullptr; }
SCENARIO(eval_binary){ evalr<nntl::eval_classification_binary_cached<R>>(true); } SCENARIO(eval_onehot){ evalr<nntl::eval_classification_one_hot_cached<R>>(false); }
// ---- confusion matrix: all update sequences and all small count combinations, plus big counts
#include "nntl/utils/confusion_mtx.h"
template<class T> static void confusion(){ g_h.clear(); typedef nntl::utils::ConfusionMtx<T> C; static const int V[]={0,1,2,3,50000,1000000}; long c[4]; int big=mc::choose(2); for(int i=0;i<4;i++) c[i]=V[mc::choose(big?6:4)]; mc::shard(); H("TN=%ld FN=%ld FP=%ld TP=%ld",c[0],c[1],c[2],c[3]); mc::state(std::hash<std::string>()(g_h)); C m[3]; for(auto&q:m) q.clear(); long s=0; for(int i=0;i<4;i++) s+=c[i]; if(!big){ int n=0; for(int i=0;i<4;i++) for(int k=0;k<c[i];k++) m[n++%3].update(i&1,i>>1); C r; r.reduce(m,3); m[0]=r; } else { m[0].trueNegCnt()=(int)c[0]; m[0].falseNegCnt()=(int)c[1]; m[0].falsePosCnt()=(int)c[2]; m[0].truePosCnt()=(int)c[3]; }
	const C&q=m[0]; LD TN=c[0],FN=c[1],FP=c[2],TP=c[3]; CK(q.TN()==c[0]&&q.FN()==c[1]&&q.FP()==c[2]&&q.TP()==c[3],"counts are %d %d %d %d",(int)q.TN(),(int)q.FN(),(int)q.FP(),(int)q.TP()); CK(q.AllCnt()==s&&q.TotalPosCnt()==TP+FP&&q.TotalNegCnt()==TN+FN&&q.DataPosCnt()==TP+FN&&q.DataNegCnt()==TN+FP,"totals");
	auto eq=[&](const char*w,T v,LD num,LD den){ if(den==0) return; LD e=num/den; LD tol=sizeof(T)==4?2e-6L:1e-12L; CK(std::fabs((LD)v-e)<=tol*(1+std::fabs(e)),"%s is %g, must be %Lg",w,(double)v,e); };
	eq("Recall",q.Recall(),TP,TP+FN); eq("Specificity",q.Specificity(),TN,TN+FP); eq("Precision",q.Precision(),TP,TP+FP); eq("NPV",q.NPV(),TN,TN+FN); eq("Accuracy",q.Accuracy(),TP+TN,s); eq("Jaccard",q.Jaccard(),TP,TP+FP+FN); eq("F1",q.F1Score(),2*TP,2*TP+FP+FN); eq("F2",q.FBetaScore(2),5*TP,5*TP+FP+4*FN); if((TP+FN)*(TN+FP)>0) eq("Informedness",q.Informedness(),TP*(TN+FP)+TN*(TP+FN)-(TP+FN)*(TN+FP),(TP+FN)*(TN+FP)); if((TP+FP)*(TN+FN)>0) eq("Markedness",q.Markedness(),TP*(TN+FN)+TN*(TP+FP)-(TP+FP)*(TN+FN),(TP+FP)*(TN+FN)); LD d=(TP+FP)*(TP+FN)*(TN+FP)*(TN+FN); if(d>0) eq("MCC",q.MCC(),TP*TN-FP*FN,std::sqrt(d)); else CK(q.MCC()==0,"MCC with an empty margin is %g",(double)q.MCC()); mc::op(); mc::outcome(c[0]*7+c[3]); mc::sample("%s",g_h.c_str()); }
SCENARIO(confusion_d){ confusion<double>(); } SCENARIO(confusion_f){ confusion<float>(); }

#endif
