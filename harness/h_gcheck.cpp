// The built-in numerical gradient check (P21): it accepts every correct network, looks at exactly the gradients it is asked to look at,
// leaves the network as it was, and rejects every network one of whose checked gradients is wrong.
#include <ostream>
#include <sstream>
#include <map>
#include <set>
static std::ostringstream g_os;
#define STDCOUT(args) (g_os << args)
#define STDCOUTL(args) (g_os << args << std::endl)
#include "mathx.hpp"
#include "nntl/utils.h"
#include "nntl/interfaces.h"
#include "nntl/interface/inspectors/gradcheck.h"
#include "nntl/nntl.h"
namespace gck{
	typedef double R; typedef math::smatrix<R> M; typedef nntl::gradcheck_settings<R> GS;
	struct LY{ int idx,parent,neurons,inc; bool learn,bprop,gated,ginner; std::string name; };
	struct Q{ int l; bool w; int a,b; bool may; double an=0; bool seen=false; bool operator==(const Q&o)const{ return l==o.l&&w==o.w&&a==o.a&&b==o.b; } };
	enum TK{ NONE,UP,DOWN,NEG,ZERO,NANV,SILENT,SMALL };
	static std::vector<Q> q; static TK tk=NONE; static Q tg; static int passes; static bool active=false; static bool perPass=true; static uint64_t*dr=nullptr;
	static std::vector<std::vector<double>> bx; static std::vector<int> sizes; static std::set<std::vector<double>> rows; static std::string bad;
	static double tamper(double v){ switch(tk){ case UP: return v*(1+1e-3); case DOWN: return v*(1-1e-3); case NEG: return -v; case ZERO: return 0; case NANV: return std::numeric_limits<double>::quiet_NaN(); case SMALL: return v*(1+2e-5); default: return v; } }
	struct GC: inspector::GradCheck<R>{ typedef inspector::GradCheck<R> B;
		void gc_prep_check_layer(const layer_index_t l,const nntl::_impl::gradcheck_paramsGroup g,const mtx_coords_t&c,const bool may=false)noexcept{ if(!q.empty()&&passes!=3&&bad.empty()) bad="a gradient was looked at with "+std::to_string(passes)+" forward passes"; passes=0; Q n{(int)l,g==nntl::_impl::gradcheck_paramsGroup::dLdW,(int)c.first,(int)c.second,may}; q.push_back(n); B::gc_prep_check_layer(l,g,c,may); }
		void fprop_begin(const layer_index_t l,const M&a,const bool tr)noexcept{ if(active&&l==0){ if(perPass) *dr=0; passes++; if(!tr&&bad.empty()) bad="a forward pass out of the training mode"; std::vector<double> v; for(int i=0;i<(int)a.rows();i++) for(int j=0;j<(int)a.cols_no_bias();j++) v.push_back(a.get(i,j)); if(passes==1){ bx.push_back(v); sizes.push_back((int)a.rows()); } else if(!bx.empty()&&bx.back()!=v&&bad.empty()) bad="the passes of one check see different data"; } B::fprop_begin(l,a,tr); }
		template<class T> void bprop_predLdZOut(const M&A,const math::smatrix<T>&y)noexcept{ if(active&&!bx.empty()){ int n=(int)y.rows(),w=(int)bx.back().size()/n; for(int i=0;i<n;i++){ std::vector<double> v(bx.back().begin()+i*w,bx.back().begin()+(i+1)*w); for(int j=0;j<(int)y.cols();j++) v.push_back((double)y.get(i,j)); if(!rows.count(v)&&bad.empty()) bad="a row of a batch is not a row of the data with its label"; } } B::bprop_predLdZOut(A,y); }
		bool hit(bool w)const{ return active&&!q.empty()&&tg.w==w&&m_curLayer==(layer_index_t)tg.l; }
		bool cur(bool w)const{ return active&&!q.empty()&&q.back().w==w&&m_curLayer==(layer_index_t)q.back().l; }
		void bprop_finaldLdA(const M&d)noexcept{ if(cur(false)&&m_curLayer.bUpperLayerDifferent()){ q.back().an=d.get(q.back().a,q.back().b); q.back().seen=true; } if(tk&&hit(false)&&m_curLayer.bUpperLayerDifferent()){ if(tk==SILENT) return; auto&v=const_cast<M&>(d).get(tg.a,tg.b); v=tamper(v); } B::bprop_finaldLdA(d); }
		void bprop_dLdW(const M&z,const M&p,const M&d)noexcept{ if(cur(true)){ q.back().an=d.get(q.back().a,q.back().b); q.back().seen=true; } if(tk&&hit(true)){ if(tk==SILENT) return; auto&v=const_cast<M&>(d).get(tg.a,tg.b); v=tamper(v); } B::bprop_dLdW(z,p,d); }
	};
	template<class L> void walk(L&l,int parent,std::vector<LY>&v);
	template<class L> void opt(L&l,int k);
}
#define NET_INSP gck::GC
#define TRN nntl::inmem_train_data<double>&td,int ep,int bs,int fs,const std::function<bool(int)>&cb
#define NETX void walk(std::vector<gck::LY>&v)override{ lp.for_each_packed_layer([&](auto&l){ gck::walk(l,-1,v); }); } bool gc(const math::smatrix<R>&x,const math::smatrix<R>&y,int bs,const gck::GS&s)override{ return nn.gradcheck(x,y,bs,s); } void opt(int k)override{ lp.for_each_packed_layer([&](auto&l){ gck::opt(l,k); }); } int trn(TRN)override{ nntl::nnet_train_opts<R,nntl::training_observer_silent<R>> o(ep); o.batchSize(bs); if(fs) o.maxFpropSize(fs); return (int)nn.template train<false>(td,o,[&](numel_cnt_t e)->bool{ return cb((int)e); }); }
#define NETX_BASE virtual void walk(std::vector<gck::LY>&)=0; virtual bool gc(const math::smatrix<R>&,const math::smatrix<R>&,int,const gck::GS&)=0; virtual void opt(int)=0; virtual int trn(TRN)=0;
#include "archs.hpp"
namespace gck{
	template<class L> void walk(L&l,int parent,std::vector<LY>&v){ int me=(int)v.size(); LY y; y.idx=(int)l.get_layer_idx(); y.parent=parent; y.neurons=(int)l.get_neurons_cnt(); y.inc=parent<0&&me==0?0:(int)l.get_incoming_neurons_cnt(); y.learn=nntl::is_layer_learnable<L>::value; y.bprop=nntl::is_layer_with_bprop<L>::value; y.gated=nntl::is_pack_gated<L>::value; y.ginner=false; for(auto&p:v) if(p.idx==parent&&(p.gated||p.ginner)) y.ginner=true; y.name=l.get_layer_name_str(); v.push_back(y); if constexpr(nntl::is_layer_pack<L>::value) l.for_each_packed_layer([&](auto&c){ walk(c,y.idx,v); }); }
	template<class L> void opt(L&l,int k){ if constexpr(nntl::is_layer_learnable<L>::value){ typedef GWk G; auto&g=l.get_gradWorks(); if(k==1) g.set_type(G::RMSProp_Hinton); if(k==2) g.set_type(G::Adam); if(k==3) g.nesterov_momentum(0.5); } if constexpr(nntl::is_layer_pack<L>::value) l.for_each_packed_layer([&](auto&c){ opt(c,k); }); }
}
using gck::q; using gck::Q; using gck::GS;
static int failedIdx(){ std::string s=g_os.str(); auto p=s.find("within a layer with idx = "); return p==std::string::npos?0:atoi(s.c_str()+p+26); }

struct GK{ int bs=2,ob=1,n=4,cN=20,pN=10,cI=20,pI=10,zA=100,zW=100,sh=0,seed=0; bool ign1=false; double fA=1e-4,fW=1e-4,wA=1e-6,wW=1e-5; std::vector<int> ignore; };
static std::set<int> legit(INet&n,const char*a,const std::vector<gck::LY>&L){ std::set<int> s; for(auto&l:L) if(!l.bprop) s.insert(l.idx); for(size_t i=1;i<L.size();i++) if(L[i-1].gated&&L[i].parent==L[i-1].idx) s.insert(L[i].idx); if(!strcmp(a,"frozen")) s.insert(2); return s; }
// runs the check on net n; the answer and the index of the failed layer
static std::pair<bool,int> check(Run&r,INet&n,const std::vector<gck::LY>&L,const std::set<int>&ig,const GK&k){ auto x=r.X(k.n,0); auto y=r.Y(k.n,0); GS s(k.seed==2,k.seed!=0); s.onlineBatchSize=k.ob; s.evalSetts.dLdA_setts.percOfZeros=k.zA; s.evalSetts.dLdW_setts.percOfZeros=k.zW; s.evalSetts.dLdA_setts.relErrWarnThrsh=k.wA; s.evalSetts.dLdW_setts.relErrWarnThrsh=k.wW; s.evalSetts.dLdA_setts.relErrFailThrsh=k.fA; s.evalSetts.dLdW_setts.relErrFailThrsh=k.fW; s.evalSetts.bIgnoreZerodLdWInUndelyingLayer=k.ign1;
	if(k.pN) s.groupSetts.set(k.cN,(unsigned)k.pN); else s.groupSetts.set(k.cN); if(k.pI) s.subgroupSetts.set(k.cI,(unsigned)k.pI); else s.subgroupSetts.set(k.cI); for(int i:ig) s.ignoreLayerIds.push_back(i); for(int i:k.ignore) s.ignoreLayerIds.push_back(i); for(auto&l:L) if(l.ginner) s.layerCanSkipExecIds.push_back(l.idx);
	gck::rows.clear(); for(int i=0;i<k.n;i++){ std::vector<double> v; for(int j=0;j<n.xw;j++) v.push_back(x.get(i,j)); for(int j=0;j<n.yw;j++) v.push_back(y.get(i,j)); gck::rows.insert(v); }
	gck::dr=&g_dr; q.clear(); gck::bx.clear(); gck::sizes.clear(); gck::bad.clear(); gck::passes=0; g_os.str(""); rngPat(1); gck::perPass=k.seed==0; uint64_t cnt=0; g_seed64=[](uint64_t){ g_dr=0; }; int sh=k.sh; g_rngI=[&cnt,sh](ptrdiff_t lt){ cnt++; return sh==0?(ptrdiff_t)0:sh==1?lt-1:(ptrdiff_t)((lt*5+2+cnt*3)%7)%lt; };
	auto X0=Run::M(x),Y0=Run::M(y); std::vector<std::vector<double>> w0; for(auto*m:n.W()) w0.push_back(std::vector<double>(m->data(),m->data()+m->numel()));
	gck::active=true; bool ok=n.gc(x,y,k.bs,s); gck::active=false; g_rngI=nullptr; mc::op(); if(!q.empty()&&gck::passes!=3&&gck::bad.empty()) gck::bad="a gradient was looked at with "+std::to_string(gck::passes)+" forward passes";
	auto w=n.W(); CHECK(w.size()==w0.size(),"the number of layers changes"); for(size_t i=0;i<w.size();i++) CHECK((size_t)w[i]->numel()==w0[i].size()&&!memcmp(w[i]->data(),w0[i].data(),w0[i].size()*8),"the check alters the weights of layer %d | %s",(int)i,r.hist.c_str());
	CHECK(Run::M(x).a==X0.a&&Run::M(y).a==Y0.a,"the check alters the data | %s",r.hist.c_str()); CHECK(gck::bad.empty(),"%s | %s",gck::bad.c_str(),r.hist.c_str()); int f=failedIdx(); CHECK(ok==(f==0),"returned %d and printed a failed layer %d | %s",(int)ok,f,r.hist.c_str()); return {ok,f}; }
static std::string outTail(){ std::string o=g_os.str(); for(auto&c:o) if(c=='\n') c='/'; return o.size()>260?o.substr(o.size()-260):o; }
static int cnt(int c,int p,int tot){ int m=std::min(c,tot); return p?std::max(tot*p/100,m):m; }
// which gradients were looked at: exactly those asked for
static void coverage(const std::vector<gck::LY>&L,const std::set<int>&ig,const GK&k,const std::string&h){ int out=L.back().idx; for(auto&l:L) if(l.parent<0) out=l.idx; for(auto&l:L){ bool skip=l.idx==0||ig.count(l.idx)||std::count(k.ignore.begin(),k.ignore.end(),l.idx); std::set<int> A,B; std::map<int,std::set<int>> W; int nA=0,nW=0; for(auto&e:q) if(e.l==l.idx){ CHECK(e.may==l.ginner,"layer %d: may be skipped: %d | %s",l.idx,(int)e.may,h.c_str()); CHECK(e.seen||e.may,"a gradient of layer %d was not seen | %s",l.idx,h.c_str()); CHECK(e.a>=0&&e.b>=0,"negative coordinates"); if(!e.w){ nA++; A.insert(e.b); CHECK(e.a==0&&e.b<l.neurons,"layer %d: dL/dA(%d,%d) | %s",l.idx,e.a,e.b,h.c_str()); } else { nW++; CHECK(e.a<l.neurons&&e.b<=l.inc,"layer %d: dL/dW(%d,%d) of a %dx%d matrix | %s",l.idx,e.a,e.b,l.neurons,l.inc+1,h.c_str()); if(e.b==l.inc) B.insert(e.a); else W[e.a].insert(e.b); } }
		int eA=skip||l.idx==out?0:cnt(k.cN,k.pN,l.neurons), eN=skip||!l.learn?0:cnt(k.cN,k.pN,l.neurons), eI=eN?cnt(k.cI,k.pI,l.inc):0; CHECK(nA==eA&&(int)A.size()==eA,"layer %d: %d dL/dA looked at (%d different), asked for %d | %s",l.idx,nA,(int)A.size(),eA,h.c_str()); CHECK(nW==eN*(eI+1)&&(int)W.size()==eN&&(int)B.size()==eN,"layer %d: %d dL/dW looked at (%d neurons, %d biases), asked for %d neurons and %d weights each | %s",l.idx,nW,(int)W.size(),(int)B.size(),eN,eI,h.c_str()); for(auto&w:W) CHECK((int)w.second.size()==eI,"layer %d neuron %d: %d different weights looked at, asked for %d | %s",l.idx,w.first,(int)w.second.size(),eI,h.c_str()); }
	size_t nx=0; for(auto&e:q) CHECK(gck::sizes.at(nx++)==(e.w?k.bs:k.ob),"batch of %d samples | %s",gck::sizes[nx-1],h.c_str()); }
static bool excl(const char*n){ return !strcmp(n,"pen_and_dropout")||!strcmp(n,"clamped_output"); }
struct Net{ NP n; std::unique_ptr<Run> r; std::vector<gck::LY> L; std::set<int> ig; const char*name; };
static Net mk(int ai,int wp,int gates=0x3f,int o=0,int mx=3){ Net t; auto&A=archs()[ai]; t.name=A.n; rngPat(0); g_mask.clear(); gck::active=false; gck::tk=gck::NONE; t.n=A.mk(); t.r.reset(new Run(*t.n)); t.r->gates=gates; t.n->opt(o); CHECK(t.n->init(mx,mx),"init"); t.r->readW(); t.r->setPat(wp); t.n->walk(t.L); t.ig=legit(*t.n,A.n,t.L); char b[60]; snprintf(b,sizeof b,"%s weights=%d gates=%x",A.n,wp,gates); t.r->hist=b; return t; }
static int pickArch(){ static std::vector<int> v; if(v.empty()) for(size_t i=0;i<archs().size();i++) if(!excl(archs()[i].n)) v.push_back((int)i); return v[mc::choose((int)v.size())]; }
static void step(Net&t,int i){ CHECK(t.n->init(3,3),"init"); rngPat(i%3); auto x=t.r->X(2+i%2,i%2),y=t.r->Y(2+i%2,i%2); t.n->fpropTrain(x); t.n->bprop(y); mc::op(); }
static void sameNet(Net&a,Net&b,const char*w){ auto x=a.n->W(),y=b.n->W(); for(size_t i=0;i<x.size();i++) CHECK(x[i]->numel()==y[i]->numel()&&!memcmp(x[i]->data(),y[i]->data(),x[i]->numel()*8),"%s: weights of layer %d differ from those of a network that was not checked | %s",w,(int)i,a.r->hist.c_str()); }
SCENARIO(passes){ int ai=pickArch(), wp=mc::choose(3); static const int SZ[][3]={{2,1,4},{3,1,3},{2,3,3},{1,1,4},{3,2,5},{2,2,2},{1,1,1},{2,1,2},{1,2,2},{5,1,5},{2,4,5}}; int sz=mc::choose(11); g_W=mc::thorough()?1+mc::choose(3):1+(ai+wp+sz)%3; g_order=(ai+wp)&1; mc::shard(); static const int GP[][4]={{20,10,20,10},{1,0,1,0},{2,0,20,0},{1,50,1,100},{1,100,2,34}}; int g=mc::thorough()?mc::choose(5):(ai+wp+sz)%5; int gates=mc::choose(archs()[ai].n[1]=='p'&&archs()[ai].n[2]=='h'&&archs()[ai].n[3]=='o'?2:1)?0x27:0x3f;
	int o=std::max(SZ[sz][0],SZ[sz][1])>3?0:mc::thorough()?mc::choose(4):(wp+sz)%4; Net a=mk(ai,wp,gates,o),b=mk(ai,wp,gates,o); int pre=mc::choose(2); GK k; k.fA=k.fW=pre?1e-3:1e-4; k.bs=SZ[sz][0]; k.ob=SZ[sz][1]; k.n=SZ[sz][2]; k.cN=GP[g][0]; k.pN=GP[g][1]; k.cI=GP[g][2]; k.pI=GP[g][3]; k.sh=(sz+wp)%3; k.seed=(sz+g)%3; char h[160]; snprintf(h,sizeof h," batch=%d online=%d rows=%d groups=%d,%d,%d,%d shuffle=%d seed=%d optimizer=%d workers=%d steps=%d",k.bs,k.ob,k.n,k.cN,k.pN,k.cI,k.pI,k.sh,k.seed,o,g_W,pre*2); a.r->hist+=h; { std::vector<int> cand; if(a.L.size()>2) cand.push_back(a.L[a.L.size()-2].idx); for(auto&l:a.L) for(auto&c:a.L) if(l.parent>=-1&&c.parent==l.idx&&l.idx!=0&&!std::count(cand.begin(),cand.end(),l.idx)){ cand.push_back(l.idx); break; } int ic=mc::choose(1+(int)std::min<size_t>(cand.size(),3)); if(ic) k.ignore.push_back(cand[ic-1]), a.r->hist+=" ignore "+std::to_string(cand[ic-1]); }
	for(int i=0;i<pre*2;i++){ step(a,i); step(b,i); } sameNet(a,b,"before"); auto res=check(*a.r,*a.n,a.L,a.ig,k); CHECK(res.first,"a correct network is rejected: %s | %s",outTail().c_str(),a.r->hist.c_str()); coverage(a.L,a.ig,k,a.r->hist); mc::state(mc::hmix(mc::hmix(ai*9+wp,sz*100+g),o*10+g_W)); for(int i=2;i<5;i++){ step(a,i); step(b,i); sameNet(a,b,"later training"); } mc::outcome(mc::hmix(ai,q.size())); mc::sample("%s: %d gradients",a.r->hist.c_str(),(int)q.size()); }
static bool under(const std::vector<gck::LY>&L,int l,int top){ for(int g=0;g<10;g++){ if(l==top) return true; int p=-1; for(auto&y:L) if(y.idx==l) p=y.parent; if(p<0) return false; l=p; } return false; }
SCENARIO(catches){ int ai=pickArch(), wp=mc::choose(mc::thorough()?3:1); static const int SZ[][3]={{2,1,4},{3,2,3},{1,3,5}}; int sz=mc::choose(mc::thorough()?3:1); if(!mc::thorough()) wp=(ai+1)%3, sz=ai%3; g_W=1+(ai+wp)%3; g_order=ai&1; GK k; k.bs=SZ[sz][0]; k.ob=SZ[sz][1]; k.n=SZ[sz][2]; k.sh=(ai+wp)%3; std::vector<Q> q0; { Net a=mk(ai,wp); auto r=check(*a.r,*a.n,a.L,a.ig,k); CHECK(r.first,"a correct network is rejected: %s | %s",outTail().c_str(),a.r->hist.c_str()); q0=q; } mc::shard(); int ti=mc::choose((int)q0.size()); Q t=q0[ti]; 
	static const char*KN[]={"","x1.001","x0.999","negated","zeroed","NaN","not computed","x1.00002"}; int kind=mc::choose(9); int how=0; if(kind>=7){ how=kind-6; kind=kind==7?7:1; } else kind++; /* kind 1..7; how 1: small error under strict thresholds, 2: big error under lax ones; then a small error under the usual thresholds */ bool pass=false; if(how==1){ pass=mc::choose(2); if(!pass){ k.fA=k.wA=k.fW=k.wW=1.5e-5; } else if(!t.w){ mc::state(1); return; } } if(how==2){ pass=true; k.fW=k.fA=1e-2; if(!t.w){ mc::state(1); return; } }
	bool zero=t.an==0; if(!t.seen||(zero&&(kind<5||kind==7||t.may))){ mc::state(2); return; } if(how==0&&kind==7) return; Net a=mk(ai,wp); gck::tk=(gck::TK)kind; gck::tg=t; auto r=check(*a.r,*a.n,a.L,a.ig,k); gck::tk=gck::NONE; char h[140]; snprintf(h,sizeof h," batch=%d online=%d rows=%d: dL/d%c(%d,%d) of layer %d is %s (%g)%s",k.bs,k.ob,k.n,t.w?'W':'A',t.a,t.b,t.l,KN[kind],t.an,how==2||pass?", tolerated":""); a.r->hist+=h; if(pass){ CHECK(r.first,"a network within the tolerance is rejected: %s | %s",outTail().c_str(),a.r->hist.c_str()); CHECK(g_os.str().find("Warning: Relative error")!=std::string::npos,"no warning | %s",a.r->hist.c_str()); }
	else { CHECK(!r.first,"a wrong gradient is not noticed: %s | %s",outTail().c_str(),a.r->hist.c_str()); CHECK(t.w?r.second==t.l:under(a.L,r.second,t.l),"layer %d is blamed | %s",r.second,a.r->hist.c_str()); }
	mc::state(mc::hmix(mc::hmix(ai*9+wp,ti*100+sz),kind*10+how)); mc::outcome(mc::hmix(r.first,r.second)); mc::sample("%s",a.r->hist.c_str()); }
// how many gradients may be zero
SCENARIO(zeros){ int ai=pickArch(), wp=mc::choose(3), sz=mc::choose(3); static const int SZ[][3]={{2,1,4},{3,2,3},{1,3,5}}; g_W=1+(ai+sz)%3; g_order=sz&1; mc::shard(); int gates=mc::choose(2)?0x21:0x3f; GK k; k.bs=SZ[sz][0]; k.ob=SZ[sz][1]; k.n=SZ[sz][2]; k.sh=(ai+wp)%3; std::vector<Q> q0; std::vector<gck::LY> L; { Net a=mk(ai,wp,gates); auto r=check(*a.r,*a.n,a.L,a.ig,k); CHECK(r.first,"a correct network is rejected: %s | %s",outTail().c_str(),a.r->hist.c_str()); q0=q; L=a.L; }
	static const int PZ[]={0,25,50,75,100}; int pa=mc::choose(5),pw=mc::choose(5); k.zA=PZ[pa]; k.zW=PZ[pw]; k.ign1=mc::choose(2); int exp=0; std::map<std::pair<int,bool>,std::pair<int,int>> c; for(auto&e:q0) c[{e.l,e.w}].first++; for(auto&e:q0){ auto&v=c[{e.l,e.w}]; if(e.an==0) v.second++; if(e.an==0&&v.second>v.first*(e.w?k.zW:k.zA)/100&&!(e.w&&e.l==1&&k.ign1)){ exp=e.l; break; } }
	Net a=mk(ai,wp,gates); char h[120]; snprintf(h,sizeof h," batch=%d online=%d rows=%d zeros A %d W %d ignore1=%d",k.bs,k.ob,k.n,k.zA,k.zW,(int)k.ign1); a.r->hist+=h; auto r=check(*a.r,*a.n,a.L,a.ig,k); CHECK(r.second==exp,"failed layer %d, must be %d: %s | %s",r.second,exp,outTail().c_str(),a.r->hist.c_str()); mc::state(mc::hmix(mc::hmix(ai*9+wp,sz*4+gates),pa*10+pw)); mc::outcome(exp); mc::sample("%s -> %d",a.r->hist.c_str(),exp); }

// the check called in the middle of training
SCENARIO(midtrain){ int ai=pickArch(), wp=mc::thorough()?mc::choose(3):ai%3, bs=1+mc::choose(3), fs=mc::choose(2)*3; static const int SZ[][3]={{1,1,4},{2,1,4},{3,2,3},{2,4,5},{5,1,5},{4,1,7}}; int sz=mc::choose(6); g_W=1+(ai+sz)%3; g_order=sz&1; mc::shard(); int when=mc::choose(3); int o=mc::thorough()?mc::choose(4):(ai+bs)%4; bool grows=std::max(SZ[sz][0],SZ[sz][1])>bs; if(grows&&o) { mc::state(1); return; } std::vector<std::vector<double>> ref[3]; std::string hist; for(int ck=0;ck<2;ck++){ Net a=mk(ai,wp,0x3f,o,1); char h[140]; snprintf(h,sizeof h," train batch=%d fprop=%d optimizer=%d; checked %s with batch=%d online=%d rows=%d",bs,fs,o,when==0?"after epoch 0":when==1?"after epoch 1":"after every epoch",SZ[sz][0],SZ[sz][1],SZ[sz][2]); a.r->hist+=h; hist=a.r->hist; nntl::inmem_train_data<double> td; { math::smatrix_deform<R> x,y,x1,y1; auto put=[&](math::smatrix_deform<R>&d,const math::smatrix<R>&f,bool b){ if(b) d.will_emulate_biases(); else d.dont_emulate_biases(); CHECK(d.resize_as_dataset(f.rows(),f.cols_no_bias()),"alloc"); for(int i=0;i<(int)f.rows();i++) for(int j=0;j<(int)f.cols_no_bias();j++) d.set(i,j,f.get(i,j)); }; put(x,a.r->X(6,0),true); put(y,a.r->Y(6,0),false); put(x1,a.r->X(4,1),true); put(y1,a.r->Y(4,1),false); CHECK(td.absorb(std::move(x),std::move(y),std::move(x1),std::move(y1)),"absorb"); }
		auto order=[]{ g_rngI=[](ptrdiff_t lt){ return (ptrdiff_t)((lt*5+2)%7)%lt; }; }; order(); rngPat(0); int ec=a.n->trn(td,3,bs,fs,[&](int e){ if(ck&&(when==2||when==e)){ GK k; k.bs=SZ[sz][0]; k.ob=SZ[sz][1]; k.n=SZ[sz][2]; k.sh=sz%3; k.fA=k.fW=0.05; /* gradients get small */ auto r=check(*a.r,*a.n,a.L,a.ig,k); CHECK(r.first,"a correct network is rejected: %s | %s",outTail().c_str(),hist.c_str()); coverage(a.L,a.ig,k,hist); } order(); rngPat(e); std::vector<std::vector<double>> w; for(auto*m:a.n->W()) w.push_back(std::vector<double>(m->data(),m->data()+m->numel())); if(!ck) ref[e]=w; else CHECK(w==ref[e],"epoch %d: the weights differ from those of a network that was not checked | %s",e,hist.c_str()); return true; }); CHECK(ec==0,"training failed: %d | %s",ec,hist.c_str()); g_rngI=nullptr; mc::op(); }
	mc::state(mc::hmix(mc::hmix(ai*9+wp,bs*100+sz),when*10+o)); mc::outcome(ai*1000+sz); mc::sample("%s",hist.c_str()); }
