// The dumper and stdcout inspectors (P20): a training run is recorded, the very same run is dumped into .mat files (in-memory stand-in of
// the MATLAB API) under every dump condition and layer list, and the files must hold exactly what was recorded - and nothing else.
#define NNTL_MATLAB_AVAILABLE 1
#include <iostream>
#define STDCOUT(args) (std::cout << args)
#define STDCOUTL(args) (std::cout << args << std::endl)
#include <experimental/filesystem>
#include "rec.hpp"
#include "nntl/_supp/io/matfile.h"
#include "netx.hpp"
#include "nntl/nntl.h"
#include "nntl/layer/extensions.h"
#include "nntl/interface/inspectors/dumper.h"
#include "nntl/interface/inspectors/stdcout.h"
#include "nntl/utils/epochs_props.h"
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <sys/stat.h>
typedef double R; namespace nin=nntl::inspector; namespace act=nntl::activation; typedef nntl::weights_init::XavierFour WI;
static std::string dir(){ static std::string s=[]{ std::string d=std::string(getenv("TMPDIR")?getenv("TMPDIR"):"/tmp")+"/vp20_"+std::to_string(getpid()); mkdir(d.c_str(),0755); return d; }(); return s; }
struct Quiet{ std::ostringstream s; std::streambuf*b; Quiet(){ b=std::cout.rdbuf(s.rdbuf()); } ~Quiet(){ std::cout.rdbuf(b); } };
struct Wipe{ Wipe(){ go(); } ~Wipe(){ go(); ::rmdir(dir().c_str()); mkdir(dir().c_str(),0755); } void go(){ for(auto&f:mxf::files()) ::unlink(f.first.c_str()); mxf::wipe(); mxf::live()=0; mxf::opens()=0; mxf::countdown()=-1; mxf::misuse().clear(); } };
struct AtEnd{ ~AtEnd(){ ::rmdir(dir().c_str()); } }; static AtEnd g_atEnd;
// ---- the network: input, horizontal pack (fully connected | vertical pack of two), penalised layer (an extended layer nests itself), output
template<class INS> struct Net{ typedef HI<R,INS> I; typedef nntl::grad_works<I> GW_; template<class A> using FC=nntl::LFC<A,GW_>; typedef FC<act::sigm<R,WI>> S; typedef FC<act::softsign<R>> T; typedef nntl::LPV<T,S> V; typedef nntl::LPH<nntl::PHL<S>,nntl::PHL<V>> H; typedef nntl::LFC_PA<std::tuple<nntl::loss_addendum::L2<R>>,act::sigm<R,WI>,GW_> P; typedef nntl::layer_output<act::sigm_quad_loss<R,WI>,GW_> O; typedef nntl::layer_input<I> IL; typedef nntl::layers<IL,H,P,O> LP; typedef nntl::nnet<LP> NN;
	INS insp; IL i; S a; T b; S c; V v; H h; P p; O o; LP lp; NN nn; template<class...X> Net(X&&...x):insp(std::forward<X>(x)...),i("inp",2),a("a",2,R(0.5)),b("b",2,R(0.5)),c("c",1,R(0.25)),v("v",b,c),h("h",nntl::make_PHL(a,0,2),nntl::make_PHL(v,1,1)),p("p",2,R(0.5)),o("o",2,R(0.5)),lp(i,h,p,o),nn(lp,&insp){ p.template addendum<0>().scale(R(0.25)); }
	std::vector<rec::Mx> W(){ return {rec::mx(a.get_weights(),false),rec::mx(b.get_weights(),false),rec::mx(c.get_weights(),false),rec::mx(p.get_weights(),false),rec::mx(o.get_weights(),false)}; } };
typedef nntl::inmem_train_data<R> TD;
static math::smatrix_deform<R> M(int n,int w,bool bias,int s){ math::smatrix_deform<R> m; if(bias) m.will_emulate_biases(); if(!m.resize(n,w)) mc::fail("alloc"); for(int i=0;i<n;i++) for(int j=0;j<w;j++) m.set(i,j,R(bias?((i*5+j*3+s*7)%11)*0.25-1.25:0.125*((i+2*j+s)%8))); return m; }
struct Run{ int epochs=2,batches=2,maxF=0; bool nest=false,on=true,rep=true; };
static void rngz(){ static uint64_t k; k=0; g_rng=[]{ static const double U[]={0.1,0.8,0.5,0.9,0.74,0.2,0.76,0.33,0.61}; return U[(k++*4+k/9)%9]; }; g_rngI=nullptr; }
template<class N> static void go(N&n,const Run&r,bool nest){ typedef typename N::NN NN; rngz(); TD td; if(!td.absorb(M(2*r.batches,2,true,0),M(2*r.batches,2,false,1),M(1,2,true,2),M(1,2,false,3))) mc::fail("absorb"); auto o=nntl::nnet_train_opts<R>(r.epochs,r.rep); o.batchSize(2); if(r.maxF) o.maxFpropSize(r.maxF+1); o.bForceInspectorOnDuringTraining(r.on); if(nest){ n.a.get_gradWorks().nesterov_momentum(R(0.5)); n.p.get_gradWorks().nesterov_momentum(R(0.5)); } auto ec=n.nn.template train<false>(td,o); if(ec!=NN::ErrorCode::Success) mc::fail("train() failed: %d",(int)ec); mc::op(); g_rng=nullptr; }
// ---- what must be dumped
typedef std::map<std::string,std::map<std::string,std::map<std::string,rec::Mx>>> Files;
struct Cond{ int kind; std::vector<numel_cnt_t> ep; numel_cnt_t n=1,st=1; };
static const char* KN[]={"EpochNum","EpochNumWLastBatch","EpochNumWFirstNLastBatch","CalcErrByEpochNum","CalcErrOnlyByEpochNum","FirstBatches"};
static bool epochSel(const Cond&c,int e,int E){ if(c.ep.empty()) return e==E-1; for(auto v:c.ep) if(v==e||(v>=E&&e==E-1)) return true; return false; }
static bool batchSel(const Cond&c,int b,int e,int E,int B){ bool s=epochSel(c,e,E); switch(c.kind){ case 0: case 3: return b==0&&s; case 1: return s&&b==(e==E-1?B-1:0); case 2: return e==0?b<c.n&&b%std::max<numel_cnt_t>(1,c.st)==0:s&&b==(e==E-1?B-1:0); case 4: return false; default: return b<c.n&&b%std::max<numel_cnt_t>(1,c.st)==0; } }
static bool errSel(const Cond&c,int e,int ds,int E){ if(ds!=0||(c.kind!=3&&c.kind!=4)) return false; if(e>=0) return epochSel(c,e,E); for(auto v:c.ep) if(v==-1) return true; return false; }
static Files expectF(const std::vector<rec::Ev>&E,const Cond&c,const Run&r,const std::function<bool(int)>&allow){ using namespace rec; Files F; std::map<int,std::string> nm; std::vector<int> st; int ep=-1; std::string file; auto sel=[&]{ return !file.empty()&&!st.empty()&&allow(st.back()); }; char b[80];
	for(auto&e:E) switch(e.k){ case LAYER: nm[e.l]=e.n; break; case EB: ep=(int)e.s; break; case TB: file.clear(); if(batchSel(c,(int)e.s,ep,r.epochs,r.batches)){ snprintf(b,80,"/ep%03d_%03d_f.mat",ep+1,(int)e.s); file=dir()+b; F[file]; } break;
		case TE: file.clear(); break; case CB: file.clear(); if(errSel(c,ep,(int)e.s,r.epochs)){ snprintf(b,80,"/ep%03d_err_%d.mat",ep+1,(int)e.s); file=dir()+b; F[file]; } break; case CE: file.clear(); break;
		case OTHER: break;
		case FB: case BB: st.push_back(e.l); if(sel()&&(st.size()<2||st[st.size()-2]!=e.l)){ if(e.k==BB&&file.size()>6&&file.substr(file.size()-6)=="_f.mat"){ file.replace(file.size()-5,1,"b"); } F[file][nm[e.l]].clear(); if(e.k==BB) F[file][nm[e.l]]["dLdA"]=e.a; } break;
		case FE: if(sel()&&(st.size()<2||st[st.size()-2]!=st.back())) F[file][nm[st.back()]]["A"]=e.a; st.pop_back(); break; case BE: st.pop_back(); break;
		case FW: if(sel()) F[file][nm[st.back()]]["W"]=e.a; break; case BZ: if(sel()) F[file][nm[st.back()]]["dLdZ"]=e.a; break;
		case GB: if(sel()){ F[file][nm[st.back()]]["W"]=e.a; F[file][nm[st.back()]]["dLdW"]=e.b; } break; case GU: if(sel()){ F[file][nm[st.back()]]["a_WUpd_W"]=e.a; F[file][nm[st.back()]]["a_WUpd"]=e.b; } break; case GE: if(sel()) F[file][nm[st.back()]]["a_W"]=e.a; break;
		default: break; }
	return F; }
// backward files exist for every selected batch, even when no layer is allowed
static void addB(Files&F){ Files q=F; for(auto&f:q) if(f.first.size()>6&&f.first.substr(f.first.size()-6)=="_f.mat"){ std::string b=f.first; b.replace(b.size()-5,1,"b"); F[b]; } }
static void compare(const Files&F,const std::string&h){ for(auto&f:F) CHECK(mxf::files().count(f.first),"%s is not written | %s",f.first.c_str()+dir().size(),h.c_str()); for(auto&g:mxf::files()){ auto it=F.find(g.first); CHECK(it!=F.end(),"%s is written | %s",g.first.c_str()+dir().size(),h.c_str()); const char*fn=g.first.c_str()+dir().size();
		for(auto&v:it->second) CHECK(mxf::find(g.second,v.first.c_str()),"%s has no layer %s | %s",fn,v.first.c_str(),h.c_str());
		for(auto&v:g.second){ auto l=it->second.find(v.first); CHECK(l!=it->second.end(),"%s has %s | %s",fn,v.first.c_str(),h.c_str()); CHECK(v.second->id==mxSTRUCT_CLASS,"%s of %s is not a struct | %s",v.first.c_str(),fn,h.c_str()); std::set<std::string> got; for(auto&q:v.second->f){ if(!q.second) continue; if(q.first=="f_preNM_vW"||q.first=="f_preNM_momentum") continue; got.insert(q.first); auto w=l->second.find(q.first); CHECK(w!=l->second.end(),"%s has %s.%s | %s",fn,v.first.c_str(),q.first.c_str(),h.c_str()); auto&m=w->second; CHECK(q.second->id==mxDOUBLE_CLASS&&(int)q.second->m==m.r&&((int)q.second->n==m.c||(int)q.second->n==m.c+1),"%s: %s.%s is %dx%d instead of %dx%d | %s",fn,v.first.c_str(),q.first.c_str(),(int)q.second->m,(int)q.second->n,m.r,m.c,h.c_str()); CHECK(!memcmp(q.second->d.data(),m.a.data(),m.a.size()*8),"%s: %s.%s differs from what happened | %s",fn,v.first.c_str(),q.first.c_str(),h.c_str()); }
			for(auto&w:l->second) CHECK(got.count(w.first),"%s: %s.%s is missing | %s",fn,v.first.c_str(),w.first.c_str(),h.c_str()); } }
	CHECK(mxf::opens()==0,"%d files are left open | %s",mxf::opens(),h.c_str()); CHECK(mxf::misuse().empty(),"%s | %s",mxf::misuse().c_str(),h.c_str()); }
static std::vector<rec::Ev> recorded(const Run&r,bool nest,std::vector<rec::Mx>&W,std::vector<rec::Ev>*more=nullptr){ rec::E.clear(); rec::on=true; Quiet q; Net<rec::Rec> n; go(n,r,nest); W=n.W(); auto e=std::move(rec::E); if(more){ for(auto&x:e) if(x.k==rec::LAYER) more->push_back(x); rec::E.clear(); go(n,r,nest); more->insert(more->end(),rec::E.begin(),rec::E.end()); } rec::E.clear(); return e; }
template<class C> struct Setup{ static void f(C&c,const Cond&k){ c.m_epochsToDump.assign(k.ep.begin(),k.ep.end()); if constexpr(std::is_same<C,nin::conds::EpochNumWFirstNLastBatch>::value){ c.m_firstNBatches=k.n; c.m_firstNBatchesStride=k.st; } } };
template<> struct Setup<nin::conds::FirstBatches>{ static void f(nin::conds::FirstBatches&c,const Cond&k){ c.maxBatches=k.n; c.stride=k.st; } };
typedef nntl_supp::omatfileEx<> AR_;
template<class C> static void dump(const Run&r,const Cond&k,int list,const std::string&h,int own,bool again){ std::vector<rec::Mx> W0; std::vector<rec::Ev> E2; auto E=recorded(r,r.nest,W0,again?&E2:nullptr); typedef nin::dumper<R,AR_,C> D; Wipe w; Quiet q; AR_ ar; { typedef Net<D> N; N n; D&d=n.insp; d.set_dir_to_dump(own?dir().c_str():std::string(dir()).c_str()); Setup<C>::f(d.getCondDump(),k); std::map<int,std::pair<std::string,unsigned>> ls; for(auto&e:E) if(e.k==rec::LAYER) ls[e.l]={e.n,(unsigned)e.s}; std::set<int> idx; bool white=false;
		auto byName=[&](const char*s){ for(auto&l:ls) if(l.second.first.find(s)==0) return l.first; mc::fail("harness: layer"); return 0; };
		switch(list){ case 0: break; case 1: white=true; for(int i:{byName("a"),byName("p")}) idx.insert(i); d.whitelist((nntl::layer_index_t)byName("a")).whitelist((nntl::layer_index_t)byName("p")); break; case 2: for(int i:{byName("h"),byName("c")}) idx.insert(i); d.blacklist((nntl::layer_index_t)byName("h")).blacklist((nntl::layer_index_t)byName("c")); break;
			case 3:{ white=true; unsigned t=ls[byName("v")].second; for(auto&l:ls) if(l.second.second==t) idx.insert(l.first); idx.insert(byName("o")); d.whitelist((nntl::layer_type_id_t)t).whitelist((nntl::layer_index_t)byName("o")); break; } case 4:{ unsigned t=ls[byName("a")].second; for(auto&l:ls) if(l.second.second==t) idx.insert(l.first); d.blacklist((nntl::layer_type_id_t)t); break; } case 5: white=true; d.setWhiteList(); break; case 6: d.whitelist((nntl::layer_index_t)byName("a")); d.setBlackList(); break; }
		auto allow=[=](int l){ return idx.count(l)?white:!white; }; Files F; if(r.on) F=expectF(E,k,r,allow); addB(F); if(!r.on) d.turn_off(); go(n,r,r.nest); auto W=n.W(); CHECK(W==W0,"dumping changes what is learnt | %s",h.c_str()); compare(F,h); CHECK(d.isInspectorActive()==r.on,"the inspector is left %s | %s",r.on?"off":"on",h.c_str());
		if(again){ Cond k2=k; if(list&1){ k2.ep.clear(); for(int e=0;e<r.epochs;e++) if(std::find(k.ep.begin(),k.ep.end(),e)==k.ep.end()) k2.ep.push_back(e); if(k2.ep.empty()) k2.ep.push_back(0); if(k.n) k2.n=k.n>1?k.n-1:2; Setup<C>::f(d.getCondDump(),k2); } Files G; if(r.on) G=expectF(E2,k2,r,allow); addB(G); w.go(); go(n,r,r.nest); compare(G,"a second training of the same net | "+h); }
		mc::outcome(mc::hmix(F.size(),r.on)); } }
static void pickRun(Run&r){ r.epochs=1+mc::choose(mc::thorough()?4:3); r.batches=1+mc::choose(mc::thorough()?4:3); }
SCENARIO(dumps){ Run r; pickRun(r); Cond k; k.kind=mc::choose(6); mc::shard(); if(k.kind<5){ int m=mc::choose(1<<(r.epochs+2)); for(int e=0;e<r.epochs+2;e++) if(m>>e&1) k.ep.push_back(e-1==r.epochs?r.epochs+3:e-1); } if(k.kind==2||k.kind==5){ k.n=mc::choose(r.batches+2); if(k.kind==5&&!k.n) throw mc::Skip(); k.st=mc::choose(3); } int list=mc::choose(7); if(k.ep.size()>1&&list>3&&!mc::thorough()) throw mc::Skip(); r.nest=list&1; g_W=1+(list&1); g_order=0;
	std::string h=std::string(KN[k.kind])+" epochs="+std::to_string(r.epochs)+" batches="+std::to_string(r.batches)+" n="+std::to_string((int)k.n)+" stride="+std::to_string((int)k.st)+" list="+std::to_string(list)+" dump="; for(auto e:k.ep) h+=std::to_string((int)e)+","; mc::state(mc::hbytes(h.data(),h.size())); mc::sample("%s",h.c_str());
	switch(k.kind){ case 0: dump<nin::conds::EpochNum>(r,k,list,h,1,true); break; case 1: dump<nin::conds::EpochNumWLastBatch>(r,k,list,h,0,true); break; case 2: dump<nin::conds::EpochNumWFirstNLastBatch>(r,k,list,h,1,false); break; case 3: dump<nin::conds::CalcErrByEpochNum>(r,k,list,h,1,true); break; case 4: dump<nin::conds::CalcErrOnlyByEpochNum>(r,k,list,h,1,false); break; case 5: dump<nin::conds::FirstBatches>(r,k,list,h,1,true); break; } }
SCENARIO(switched_off){ Run r; pickRun(r); mc::shard(); r.on=mc::choose(2); Cond k; k.kind=3; k.ep={-1,0}; g_W=1; g_order=0; r.maxF=mc::choose(3); char b[100]; snprintf(b,100,"on=%d epochs=%d batches=%d maxF=%d",r.on,r.epochs,r.batches,r.maxF); mc::state(mc::hbytes(b,strlen(b))); mc::sample("%s",b); dump<nin::conds::CalcErrByEpochNum>(r,k,0,b,1,false); }
// ---- the printing inspector tells the same story
SCENARIO(printed){ Run r; pickRun(r); mc::shard(); r.rep=mc::choose(2); r.nest=mc::choose(2); g_W=1; g_order=0; char b[200]; snprintf(b,200,"epochs=%d batches=%d report=%d nesterov=%d",r.epochs,r.batches,r.rep,r.nest); mc::state(mc::hbytes(b,strlen(b))); mc::sample("%s",b); std::vector<rec::Mx> W0; auto E=recorded(r,r.nest,W0); std::vector<std::string> want,got; { using namespace rec; std::string at; numel_cnt_t ep=std::numeric_limits<numel_cnt_t>::max(),bt=ep; auto put=[&](const char*pre,const char*n,int r,int c){ want.push_back(std::string(pre)+"@"+std::to_string(ep)+"#"+std::to_string(bt)+" mtx '"+n+"' size = ["+std::to_string(r)+","+std::to_string(c)+"]"); };
		for(auto&e:E) switch(e.k){ case LAYER:{ std::ostringstream s; s<<"Layer "<<e.n<<" of type 0x"<<std::hex<<(unsigned)e.s<<" is being initialized"; want.push_back(s.str()); break; } case EB: ep=(numel_cnt_t)e.s; break; case TB: bt=(numel_cnt_t)e.s; break; case FB: put(e.tr?"fp:tr, ":"fp:t, ","previous activations",e.a.r,(int)e.s); break; case FE: put("","current activations",e.a.r,(int)e.s); break; case BB: put("bp: ","dL/dA",e.a.r,e.a.c); break; case BE: put("","dL/dA for a layer down the stack",e.a.r,e.a.c); break; case FW: put("","Current weights",e.a.r,e.a.c); break; case GU: put("","weights@apply_grad",e.a.r,e.a.c); put("","Weights update@apply_grad",e.b.r,e.b.c); break; default: break; } }
	Quiet q; Net<nin::stdcout<R>> n; go(n,r,r.nest); CHECK(n.W()==W0,"printing changes what is learnt | %s",b); std::istringstream in(q.s.str()); for(std::string l;std::getline(in,l);) if(l.find("fp:")!=std::string::npos||l.find("bp: ")!=std::string::npos||l.find("mtx '")!=std::string::npos||l.find("Layer ")==0) got.push_back(l);
	for(size_t i=0;i<want.size()&&i<got.size();i++) CHECK(want[i]==got[i],"line %d: '%s' instead of '%s' | %s",(int)i,got[i].c_str(),want[i].c_str(),b); CHECK(want.size()==got.size(),"%d lines instead of %d | %s",(int)got.size(),(int)want.size(),b); mc::outcome(want.size()); }
// ---- the helpers behind them
SCENARIO(conditions){ int E=1+mc::choose(6); mc::shard(); int w=mc::choose(5), st=1+mc::choose(7), from=1+mc::choose(E); std::vector<int> m(E,0); char b[100]; snprintf(b,100,"epochs=%d ctor=%d stride=%d from=%d",E,w,st,from); mc::state(mc::hbytes(b,strlen(b))); mc::op();
	if(w<4){ std::unique_ptr<nntl::vector_conditions> c(w==0?new nntl::vector_conditions((numel_cnt_t)E,true):w==1?new nntl::vector_conditions((numel_cnt_t)E,false):w==2?new nntl::vector_conditions((numel_cnt_t)E,(numel_cnt_t)st):new nntl::vector_conditions((numel_cnt_t)E,(numel_cnt_t)from,(numel_cnt_t)st)); for(int e=0;e<E;e++) m[e]=w==0||e==E-1||(w==2&&(e+1)%st==0)||(w==3&&e+1>=from&&(e+1-from)%st==0); CHECK(c->maxEpoch()==E,"size | %s",b); for(int op=0;op<2;op++){ for(int e=0;e<E;e++) CHECK((*c)(e)==(m[e]!=0),"epoch %d | %s op=%d",e,b,op); if(op) break; int o=mc::choose(5), x=mc::choose(E), y=x+mc::choose(E-x); switch(o){ case 0: c->verbose(x); m[x]=1; break; case 1: c->silence(x); m[x]=0; break; case 2: c->verbose(x+1,y+1,st); for(int e=x;e<=y;e+=st) m[e]=1; break; case 3: c->silence(x+1,y+1,st); for(int e=x;e<=y;e+=st) m[e]=0; break; case 4:{ c->clear().resize(E,y&1); for(auto&v:m) v=y&1; break; } } } }
	else { int v=mc::choose(3); std::unique_ptr<nntl::epochs_props> p(v==0?new nntl::epochs_props(E):v==1?new nntl::epochs_props(E,st):new nntl::epochs_props(E,from,st)); CHECK((int)p->maxEpoch()==E,"size | %s",b); for(int e=0;e<E;e++) CHECK(p->bEvaluatePerfAt(e)==(v==0||(v==1&&e%st==0)||(v==2&&e>=from&&(e-from)%st==0)),"epoch %d, kind %d | %s",e,v,b); } uint64_t hh=E; for(int x:m) hh=hh*2+x; mc::outcome(hh); }
// the stack of layer indices: every history of pushes and pops
SCENARIO(layer_stack){ typedef nntl::utils::layer_idx_keeper<nntl::layer_index_t,nntl::layer_index_t(-1),8> K; K k; std::vector<int> m; int D=mc::thorough()?9:7; std::string h; for(int s=0;s<D;s++){ int o=mc::choose(4); if(s==1) mc::shard(); if(o==3){ if(m.empty()) throw mc::Skip(); k.pop(); m.pop_back(); } else { k.push((nntl::layer_index_t)(o+1)); m.push_back(o+1); } mc::op(); h+=(char)('0'+o); CHECK((int)k.size()==(int)m.size(),"size after %s",h.c_str()); CHECK(k.top()==(m.empty()?nntl::layer_index_t(-1):nntl::layer_index_t(m.back()))&&k==k.top(),"top after %s",h.c_str()); bool df=m.size()<2||m[m.size()-1]!=m[m.size()-2]; CHECK(k.bUpperLayerDifferent()==df,"bUpperLayerDifferent after %s",h.c_str()); mc::state(mc::hbytes(h.data(),h.size())); } while(!m.empty()){ k.pop(); m.pop_back(); } mc::outcome(mc::hbytes(h.data(),h.size())); }
