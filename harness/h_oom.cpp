// Running out of memory (P22): every allocation of an operation fails in turn (alone, or with all the later ones). The operation must answer
// with an error (or do without the memory), leak nothing, and work as ever when it is repeated with enough memory.
#include "oom.hpp"
#include "mathx.hpp"
#include "nntl/utils.h"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#define TRN nntl::inmem_train_data<double>&td,int ep,int bs,int fs
#define NETX int trn(TRN)override{ nntl::nnet_train_opts<R,nntl::training_observer_silent<R>> o(ep); o.batchSize(bs); if(fs) o.maxFpropSize(fs); auto e=nn.template train<false>(td,o); CHECK(nn.get_last_error()==e,"the last error is not the one returned"); return (int)e; } int inf(const math::smatrix<R>&x)override{ return (int)nn.fprop(x); }
#define NETX_BASE virtual void opt(int)=0; virtual int trn(TRN)=0; virtual int inf(const math::smatrix<R>&)=0;
// every layer with weights gets an optimizer with all of its extras
template<class L> static auto opt1(L&l,int k,int)->decltype(l.get_gradWorks(),void()){ auto&g=l.get_gradWorks(); typedef std::remove_reference_t<decltype(g)> G; if(k==0) return; g.learning_rate(1e-3); g.set_type(k==1?G::Adam:k==2?G::AdaMax:k==3?G::RMSProp_Graves:k==4?G::Nadam:G::RMSProp_Hinton); if(k==1||k==5) g.momentum(.5); if(k==2||k==3) g.nesterov_momentum(.5); if(k==1||k==3||k==5) g.set_ILR(.9,1.1,.1,5); if(k==5) g.applyILRToMomentum(true); if(k==4||k==5) g.max_norm(2); } template<class L> static void opt1(L&,int,long){}
template<class...T> static void setOpt(int k,T&...l){ int q[]={(opt1(l,k,0),0)...}; (void)q; }
#define WSX(...) void opt(int k)override{ setOpt(k,__VA_ARGS__); }
#include "archs.hpp"
typedef std::vector<std::vector<double>> VV;
static VV weights(INet&n){ VV w; for(auto*m:n.W()) w.push_back(m->empty()?std::vector<double>():std::vector<double>(m->data(),m->data()+m->numel())); return w; }
static void mkTd(nntl::inmem_train_data<double>&td,Run&r,int a,int b){ math::smatrix_deform<double> x,y,x1,y1; auto put=[&](math::smatrix_deform<double>&d,const math::smatrix<double>&f,bool b){ if(b) d.will_emulate_biases(); else d.dont_emulate_biases(); CHECK(d.resize_as_dataset(f.rows(),f.cols_no_bias()),"alloc"); for(int i=0;i<(int)f.rows();i++) for(int j=0;j<(int)f.cols_no_bias();j++) d.set(i,j,f.get(i,j)); }; put(x,r.X(a,0),true); put(y,r.Y(a,0),false); put(x1,r.X(b,1),true); put(y1,r.Y(b,1),false); CHECK(td.absorb(std::move(x),std::move(y),std::move(x1),std::move(y1)),"absorb"); }
// what: 0 the first training, 1 a second training that needs more memory, 2 inference on a fresh net, 3 inference that needs more memory, 4 initialisation
static int g_ec,g_opt; static long run(int ai,int what,long at,bool rest,VV&got,VV&again){ auto&A=archs()[ai]; rngPat(0); g_mask.clear(); g_rngI=[](ptrdiff_t lt){ return (ptrdiff_t)((lt*5+2)%7)%lt; }; NP n=A.mk(); n->opt(g_opt); Run r(*n); r.gates=0x3f; char h[160]; snprintf(h,sizeof h,"%s: optimizer %d %s, allocation %ld%s fails",A.n,g_opt,what==0?"train":what==1?"train more":what==2?"fprop":what==3?"fprop more":"init",at,rest?" and later ones":""); r.hist=h; nntl::inmem_train_data<double> td; mkTd(td,r,5,3);
	if(what==1){ g_ec=n->trn(td,1,1,1); CHECK(g_ec==0,"training failed: %d | %s",g_ec,h); } if(what==3){ auto x=r.X(1,0); CHECK(n->inf(x)==0,"fprop failed | %s",h); } rngPat(0); auto xx=r.X(4,1); long cnt; int ec; auto act=[&]{ return what<2?n->trn(td,1,2,3):what<4?n->inf(xx):n->init(3,2)?0:1; };
	g_rec.clear(); g_rec.reserve(100000); { Arm a(at,rest,true); ec=act(); cnt=oom::n; } mc::op(); g_ec=ec; CHECK(at>0||ec==0,"answered %d although there is memory | %s",ec,h); if(at>0) CHECK(oom::fired>0,"the harness did not fail anything | %s",h); if(ec==0){ got=weights(*n); if(what==2||what==3){ auto&o=n->out(); got.push_back(std::vector<double>(o.data(),o.data()+o.rows()*o.cols_no_bias())); } }
	// again, with memory
	rngPat(0); CHECK(n->init(5,2),"can not be initialised afterwards | %s",h); r.readW(); r.setPat(1); rngPat(1); { int e2=n->trn(td,2,2,3); CHECK(e2==0,"training afterwards failed: %d | %s",e2,h); auto x=r.X(5,0); CHECK(n->inf(x)==0,"fprop afterwards failed | %s",h); again=weights(*n); auto&o=n->out(); again.push_back(std::vector<double>(o.data(),o.data()+o.rows()*o.cols_no_bias())); } g_rngI=nullptr; return cnt; }
static std::map<int,std::pair<long,std::pair<VV,VV>>> g_base;
static void one(int what){ int ai=mc::choose((int)archs().size()); bool rest=mc::choose(2); g_opt=what==2||what==3?0:mc::choose(6); g_W=1+ai%3; g_order=ai&1; mc::shard(); int key=(ai*8+what)*8+g_opt; if(!g_base.count(key)){ VV a,b; long c=run(ai,what,-1,false,a,b); g_base[key]={c,{a,b}}; } auto&B=g_base[key]; mc::state(mc::hmix(key,77)); if(B.first==0){ mc::sample("%s needs no memory",archs()[ai].n); return; } long at=1+mc::choose((int)B.first); g_rec.clear(); g_rec.shrink_to_fit(); VV got,again; long l0=oom::live; { run(ai,what,at,rest,got,again); } 
	int ec=g_ec; if(ec==0) CHECK(got==B.second.first,"%s: answered success but the result is another | operation %d allocation %ld",archs()[ai].n,what,at); CHECK(again==B.second.second,"%s: the network works differently afterwards | operation %d allocation %ld",archs()[ai].n,what,at); got.clear(); got.shrink_to_fit(); again.clear(); again.shrink_to_fit(); g_rec.clear(); g_rec.shrink_to_fit(); long lv=oom::live-l0; CHECK(lv==0,"%ld allocations are leaked | %s operation %d allocation %ld%s fails: %d",lv,archs()[ai].n,what,at,rest?" and later ones":"",ec); mc::state(mc::hmix(mc::hmix(key,at),rest)); mc::outcome(mc::hmix(ec,ai)); mc::sample("%s operation %d: allocation %ld of %ld fails: %d",archs()[ai].n,what,at,B.first,ec); }
SCENARIO(train_first){ one(0); } SCENARIO(train_more){ one(1); } SCENARIO(fprop_first){ one(2); } SCENARIO(fprop_more){ one(3); } SCENARIO(init){ one(4); }
