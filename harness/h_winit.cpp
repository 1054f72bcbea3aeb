// Weight initialisation: static schemes over a scripted source, LSUV on small networks with all settings.
#include <set>
#include <map>
#include "netx.hpp"
#include "nntl/nntl.h"
#include "nntl/weights_init/LsuvExt.h"
#include "net_ref.hpp"
static std::string g_h; static void H(const char*f,...){ char b[300]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); g_h+=b; }
#define CK(c,f,...) CHECK(c,f " | %s",##__VA_ARGS__,g_h.c_str())
namespace wi=nntl::weights_init; namespace act=nntl::activation;
static uint64_t g_seed; static void hashRng(uint64_t s){ g_seed=s*7919+13; g_rngI=nullptr; g_rng=[]{ g_seed+=0x9E3779B97F4A7C15ull; uint64_t z=g_seed; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; z^=z>>31; return (z>>11)*(1./9007199254740992.); }; }
template<class R> static math::smatrix<R> mkW(int r,int c){ math::smatrix<R> w(r,c); for(int k=0;k<r*c;k++) w.data()[k]=R(-77); return w; }
template<class R> static void sameSet(std::vector<double> got,std::vector<double> e,const char*w){ CK(got.size()==e.size(),"%s: %d weights",w,(int)got.size()); std::sort(got.begin(),got.end()); std::sort(e.begin(),e.end()); for(size_t i=0;i<e.size();i++) CK(fabs(got[i]-e[i])<=16*std::numeric_limits<R>::epsilon()*(fabs(e[i])+1e-3),"%s: a weight is %.9g, must be %.9g",w,got[i],e[i]); uint64_t h=0; for(double x:got) h=h*31+(uint64_t)(int64_t)(x*1e4); mc::outcome(h); }
template<class R> static std::vector<double> normals(int n,uint64_t sd){ hashRng(sd); SRng<R> g; std::normal_distribution<R> d(0,1); std::vector<double> v; for(int i=0;i<n;i++) v.push_back((double)d(g)); return v; }
template<class S,class R> static void xavier(int r,int c,double k,int script){ auto W=mkW<R>(r,c); SRng<R> g; IMT<R> im; int n=0; std::vector<double> dr; auto src=[&]()->double{ double P[]={0,1-1./(1<<24),.5,.25}; return script<4?P[script]:(n*7%11)/11.; }; g_rngI=nullptr; g_rng=[&]{ double x=src(); n++; dr.push_back(x); return x; }; CK(S::make_weights(W,g,im),"refused"); double b=k*sqrt(6./(r+c)); std::vector<double> e,got; for(double x:dr) e.push_back((2*x-1)*b); for(int i=0;i<r*c;i++) got.push_back(W.data()[i]); sameSet<R>(got,e,"Xavier"); mc::op(); }
template<class S,class R> static void he(int r,int c,double st,int sd){ auto W=mkW<R>(r,c); SRng<R> g; IMT<R> im; int n=r*(c-1); auto z=normals<R>(n,sd); hashRng(sd); CK(S::make_weights(W,g,im),"refused"); std::vector<double> e,got; for(double x:z) e.push_back(x*st); for(int j=0;j<c-1;j++) for(int i=0;i<r;i++) got.push_back(W.get(i,j)); sameSet<R>(got,e,"He_Zhang"); for(int i=0;i<r;i++) CK(W.get(i,c-1)==R(0),"a bias weight is %g",(double)W.get(i,c-1)); mc::op(); }
template<class R> static void statics(int k,int r,int c,int s){ switch(k){ case 0: xavier<wi::Xavier<>,R>(r,c,1,s); break; case 1: xavier<wi::XavierFour,R>(r,c,4,s); break; case 2: xavier<wi::Xavier<250000>,R>(r,c,.25,s); break; case 3: he<wi::He_Zhang<>,R>(r,c,sqrt(2./(c-1)),s); break; case 4: he<wi::He_Zhang<500000>,R>(r,c,.5*sqrt(2./(c-1)),s); break; case 5: he<wi::He_Zhang2<>,R>(r,c,sqrt(2./(c-1)),s); break; case 6: he<wi::He_Zhang2<500000>,R>(r,c,sqrt(.5/(c-1)),s); break; case 7: he<wi::SNNInit,R>(r,c,sqrt(1./(c-1)),s); break; } }
SCENARIO(schemes){ g_h.clear(); int k=mc::choose(8),r=1+mc::choose(5),c=2+mc::choose(5),T=mc::choose(2); mc::shard(); int s=mc::choose(6); g_W=1; g_order=0; H("scheme %d weights %dx%d real=%d script=%d",k,r,c,T,s); mc::state((((k*6+r)*8+c)*2+T)*6+s); if(T) statics<float>(k,r,c,s); else statics<double>(k,r,c,s); mc::sample("%s",g_h.c_str()); }
// sparse initialisation: every outcome of every shuffle
template<class S,class R> static void martens(int r,int c,int N,double b,double st){ auto W=mkW<R>(r,c); SRng<R> g; IMT<R> im; auto z=normals<R>(r*N,5); hashRng(5); g_rngI=[](ptrdiff_t lt){ return (ptrdiff_t)mc::choose((int)lt); }; CK(S::make_weights(W,g,im),"refused"); std::vector<double> e,got; for(double x:z) e.push_back(x*st); for(int i=0;i<r;i++){ int nz=0; for(int j=0;j<c-1;j++) if(W.get(i,j)!=R(0)){ nz++; got.push_back(W.get(i,j)); } CK(nz==N,"neuron %d has %d incoming connections, must have %d",i,nz,N); CK(fabs((double)W.get(i,c-1)-b)<1e-6,"a bias weight is %g",(double)W.get(i,c-1)); } sameSet<R>(got,e,"Martens_SI"); uint64_t h=0; for(int i=0;i<r;i++) for(int j=0;j<c-1;j++) h=h*2+(W.get(i,j)!=R(0)); mc::outcome(h); mc::op(); }
SCENARIO(sparse){ g_h.clear(); int k=mc::choose(4),p=3+mc::choose(mc::thorough()?2:1),r=1+mc::choose(2),T=mc::choose(2); mc::shard(); g_W=1; g_order=0; H("Martens_SI kind=%d previous=%d neurons=%d real=%d",k,p,r,T); mc::state(((k*6+p)*4+r)*2+T); auto go=[&](auto z){ typedef decltype(z) R; switch(k){ case 0: martens<wi::Martens_SI_sigm<1>,R>(r,p+1,1,0,1); break; case 1: martens<wi::Martens_SI_sigm<2>,R>(r,p+1,2,0,1); break; case 2: martens<wi::Martens_SI_tanh<2>,R>(r,p+1,2,.5,.25); break; case 3: martens<wi::Martens_SI<-250000,2000000,3>,R>(r,p+1,3,-.25,2); break; } }; if(T) go(float()); else go(double()); }
template<class S,class R> static void ortho(int r,int c,double gain,int sd){ auto W=mkW<R>(r,c); SRng<R> g; IMT<R> im; hashRng(sd); CK(S::make_weights(W,g,im),"refused"); int m=std::min(r,c); for(int a=0;a<m;a++) for(int b=0;b<m;b++){ double s=0; if(r<=c) for(int j=0;j<c;j++) s+=(double)W.get(a,j)*(double)W.get(b,j); else for(int i=0;i<r;i++) s+=(double)W.get(i,a)*(double)W.get(i,b); CK(fabs(s-(a==b?gain*gain:0))<=(sizeof(R)==4?2e-5:1e-11)*gain*gain,"product of vectors %d and %d is %g",a,b,s); } mc::op(); }
SCENARIO(orthogonal){ g_h.clear(); int k=mc::choose(3),r=1+mc::choose(6),c=2+mc::choose(6),T=mc::choose(2); mc::shard(); int s=mc::choose(4); g_W=1+(s&1)*2; g_order=0; H("OrthoInit %d weights %dx%d real=%d seed=%d",k,r,c,T,s); mc::state((((k*8+r)*8+c)*2+T)*4+s); auto go=[&](auto z){ typedef decltype(z) R; switch(k){ case 0: ortho<wi::OrthoInit<>,R>(r,c,1,s); break; case 1: ortho<wi::OrthoInit<1414214>,R>(r,c,1.414214,s); break; case 2: ortho<wi::OrthoInit<250000>,R>(r,c,.25,s); break; } }; if(T) go(float()); else go(double()); }
// ---- LSUV
typedef double R; typedef HI<R> I; typedef nntl::grad_works<I> GWk; typedef wi::Xavier<> WI; typedef nntl::layer_input<I> LIn; typedef nntl::layer_output<act::sigm_quad_loss<R,WI>,GWk> LO; typedef nntl::inmem_train_data<R> TD; typedef math::smatrix_deform<R> MD; typedef wi::procedural::WeightNormSetts<R,R> WS;
struct Data{ int n,xw; std::vector<std::vector<LD>> x; }; static Data mkD(int n,int xw,int pat){ Data d; d.n=n; d.xw=xw; for(int i=0;i<n;i++){ std::vector<LD> v; for(int j=0;j<xw;j++) v.push_back((LD)(R)(((i*3+j*5+pat*2+i*i)%7)*0.25-0.75+(pat==2&&j==0?5:0)+i*0.03125*(j+1))); d.x.push_back(v); } return d; }
static MD mx(const Data&d,int n,bool x){ MD m; if(x) m.will_emulate_biases(); if(!m.resize(n,x?d.xw:1)) mc::fail("alloc"); for(int i=0;i<n;i++) for(int j=0;j<(x?d.xw:1);j++) m.set(i,j,x?(R)d.x[i][j]:R(.5)); return m; }
template<class W> static Mat toM(const W&w){ Mat m(w.rows(),w.cols()); for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) m(i,j)=w.get(i,j); return m; }
static Mat dense(const Mat&w,const Mat&in,AF f){ Mat o(in.r,w.r); for(int i=0;i<in.r;i++) for(int n=0;n<w.r;n++){ LD s=w(n,in.c); for(int j=0;j<in.c;j++) s+=w(n,j)*in(i,j); o(i,n)=f(s); } return o; }
// what the settings demand of the activations
struct Stat{ LD mean,sd; }; static Stat stat(const Mat&a,int from,int to){ LD s=0; int n=0; for(int i=0;i<a.r;i++) for(int j=from;j<to;j++){ s+=a(i,j); n++; } LD mu=s/n,q=0; for(int i=0;i<a.r;i++) for(int j=from;j<to;j++) q+=(a(i,j)-mu)*(a(i,j)-mu); return {mu,std::sqrt(q/(n-1))}; }
static bool reached(const Mat&full,const WS&s,int layer,const char*when,bool must){ int rows=full.r; if(s.batchCount){ int bs=s.batchSize?std::min<int>(s.batchSize,full.r):full.r; rows=std::min<int>(rows,bs*(int)s.batchCount); } Mat a(rows,full.c); for(int i=0;i<rows;i++) for(int j=0;j<a.c;j++) a(i,j)=full(i,j); bool ok=true; int cols=s.bOnInvidualNeurons?a.c:1; for(int j=0;j<cols;j++){ Stat t=s.bOnInvidualNeurons?stat(a,j,j+1):stat(a,0,a.c); if(std::fabs(t.mean)>1e4L||t.sd>1e4L) continue; bool sc=!s.bScaleNormalize||t.sd<1e-6L||std::fabs(t.sd-s.targetScale)<s.ScaleTolerance*(1+1e-6L)+1e-9L, ce=!s.bCentralNormalize||std::fabs(t.mean-s.targetCentral)<s.CentralTolerance*(1+1e-6L)+1e-9L; if(must) CK(sc&&ce,"%s: layer %d has mean %.9Lg, deviation %.9Lg; must have mean %g%s, deviation %g%s",when,layer,t.mean,t.sd,s.targetCentral,s.bCentralNormalize?"":" (free)",s.targetScale,s.bScaleNormalize?"":" (free)"); ok=ok&&sc&&ce; } return ok; }
static bool skips(const WS&s){ return (!s.bCentralNormalize&&!s.bScaleNormalize)||s.maxTries==0; }
static bool eqM(const Mat&a,const Mat&b){ return a.r==b.r&&a.c==b.c&&a.a==b.a; }
// only rescaling of neurons and shifts of their biases (no reinitialisation)
static void related(const Mat&o,const Mat&n,const WS&s,int layer){ for(int i=0;i<o.r;i++){ LD k=0; for(int j=0;j<o.c-1;j++) if(std::fabs(o(i,j))>1e-3L){ k=n(i,j)/o(i,j); break; } if(k==0) continue; if(!s.bScaleNormalize) CK(std::fabs(k-1)<1e-9L,"layer %d: weights rescaled although only the mean may change",layer); CK(k>0,"layer %d: neuron %d changed its sign",layer,i); for(int j=0;j<o.c-1;j++) CK(std::fabs(n(i,j)-k*o(i,j))<=1e-9L*(1+std::fabs(n(i,j))),"layer %d: neuron %d was not just rescaled",layer,i); if(!s.bCentralNormalize) CK(std::fabs(n(i,o.c-1)-k*o(i,o.c-1))<=1e-9L*(1+std::fabs(n(i,o.c-1))),"layer %d: the bias of neuron %d was shifted",layer,i); if(i&&!s.bOnInvidualNeurons&&std::fabs(o(0,0))>1e-3L) CK(std::fabs(k-n(0,0)/o(0,0))<=1e-8L*(1+k),"layer %d: neurons are rescaled differently",layer); } }
template<class A,bool Pack> struct Net{};
template<class A> struct Net<A,false>{ typedef nntl::LFC<A,GWk> F; LIn i; F h,g; LO o; typedef nntl::layers<LIn,F,F,LO> LP; LP lp; typedef nntl::nnet<LP> NN; NN nn; Net():i(2),h(2,R(.1)),g(3,R(.1)),o(1,R(.1)),lp(i,h,g,o),nn(lp){} static constexpr int n=3,xw=2; std::vector<Mat> W(){ return {toM(h.get_weights()),toM(g.get_weights()),toM(o.get_weights())}; } std::vector<int> idx(){ return {(int)h.get_layer_idx(),(int)g.get_layer_idx(),(int)o.get_layer_idx()}; }
	static std::vector<Mat> acts(const std::vector<Mat>&w,const Mat&x,AF f,const bool*pre){ Mat a=dense(w[0],x,f),b=dense(w[1],a,f); return { pre[0]?dense(w[0],x,a_id):a, pre[1]?dense(w[1],a,a_id):b, dense(w[2],b,pre[2]?a_id:a_sg) }; } static Mat out(const std::vector<Mat>&w,const Mat&x,AF f){ return dense(w[2],dense(w[1],dense(w[0],x,f),f),a_sg); } bool ign(){ return false; } };
template<class A> struct Net<A,true>{ typedef nntl::LFC<A,GWk> F; typedef nntl::LPH<nntl::PHL<F>,nntl::PHL<F>> P; LIn i; F h,g; P p; LO o; typedef nntl::layers<LIn,P,LO> LP; LP lp; typedef nntl::nnet<LP> NN; NN nn; Net():i(3),h(2,R(.1)),g(2,R(.1)),p(nntl::make_PHL(h,0,2),nntl::make_PHL(g,1,2)),o(1,R(.1)),lp(i,p,o),nn(lp){} static constexpr int n=3,xw=3; std::vector<Mat> W(){ return {toM(h.get_weights()),toM(g.get_weights()),toM(o.get_weights())}; } std::vector<int> idx(){ return {(int)h.get_layer_idx(),(int)g.get_layer_idx(),(int)o.get_layer_idx()}; }
	static std::vector<Mat> acts(const std::vector<Mat>&w,const Mat&x,AF f,const bool*pre){ Mat x0=cols(x,0,2),x1=cols(x,1,2); Mat a=dense(w[0],x0,f),b=dense(w[1],x1,f),c=hcat({a,b}); return { pre[0]?dense(w[0],x0,a_id):a, pre[1]?dense(w[1],x1,a_id):b, dense(w[2],c,pre[2]?a_id:a_sg) }; } static Mat out(const std::vector<Mat>&w,const Mat&x,AF f){ return dense(w[2],hcat({dense(w[0],cols(x,0,2),f),dense(w[1],cols(x,1,2),f)}),a_sg); } };
template<class A,bool Pack> static void lsuv(AF f,const Data&d,const WS*st,int defK,int custom,int sd,bool linear){ typedef Net<A,Pack> N; hashRng(sd+3); N net; TD td; if(!td.absorb(mx(d,d.n,true),mx(d,d.n,false),mx(d,2,true),mx(d,2,false))) mc::fail("absorb"); vec_len_t bs=d.n; CK(net.nn.init4fixedBatchFprop(td,bs)==N::NN::ErrorCode::Success,"init"); auto w0=net.W(); auto ix=net.idx(); Mat x(d.n,d.xw); for(int i=0;i<d.n;i++) for(int j=0;j<d.xw;j++) x(i,j)=d.x[i][j];
	typedef wi::procedural::LSUVExt<typename N::NN,TD,R> L; bool pre[3]; for(int k=0;k<3;k++) pre[k]=st[k].bOverPreActivations; { L l(net.nn,td,st[defK]); for(int k=0;k<3;k++) if(k!=defK||custom) l.setts().add((layer_index_t)ix[k],st[k]); bool ok=l.run(); mc::op(); auto w1=net.W(); auto ac=N::acts(w1,x,f,pre); for(int k=0;k<3;k++) if(skips(st[k])) CK(eqM(w0[k],w1[k]),"the weights of the skipped layer %d changed",ix[k]); else if(ok||(int)l.m_firstFailedLayerIdx>ix[k]) (void)reached(ac[k],st[k],ix[k],ok?"after success":"before the failed layer",true);
		if(ok) CK(l.m_firstFailedLayerIdx==0,"success, but a failed layer is named"); else { bool named=false; for(int k=0;k<3;k++) named=named||((int)l.m_firstFailedLayerIdx==ix[k]&&!skips(st[k])); CK(named,"failure names layer %d",(int)l.m_firstFailedLayerIdx); } if(linear) CK(ok,"a linear layer with varying input did not reach its target");
		if(ok&&st[0].maxReinitTries==1) for(int k=0;k<3;k++) related(w0[k],w1[k],st[k],ix[k]); mc::outcome(ok*4+(l.m_firstFailedLayerIdx&3));
		// the activation function is in force again
		if(net.nn.init4fixedBatchFprop(td,bs)!=N::NN::ErrorCode::Success) CK(false,"init after run"); auto xm=mx(d,d.n,true); net.nn.doFixedBatchFprop(xm); Mat o=N::out(w1,x,f); const auto&A2=net.o.get_activations(); LD big=0; for(auto&m:w1) for(LD v:m.a) big=std::max(big,std::fabs(v)); if(big<100) for(int i=0;i<d.n;i++) CK(std::fabs((LD)A2.get(i,0)-o(i,0))<1e-8L,"after run() the network computes %.9g, must compute %.9Lg",(double)A2.get(i,0),o(i,0)); if(!eqM(w1[0],net.W()[0])) CK(false,"weights lost"); } }
static void go(int a,bool pack,const Data&d,const WS*st,int defK,int custom,int sd){ bool lin=true; for(int k=0;k<3;k++) if(!skips(st[k])&&!st[k].bOverPreActivations&&!(a==0&&k<2)) lin=false; if(a!=0&&a!=1) lin=false; (void)lin; bool L=lin&&a==0;
#define GO(AC,F) { if(pack) lsuv<act::AC<R,WI>,true>(F,d,st,defK,custom,sd,L); else lsuv<act::AC<R,WI>,false>(F,d,st,defK,custom,sd,L); }
	switch(a){ case 0: GO(identity,a_id) break; case 1: GO(relu,a_relu) break; case 2: GO(elu_ua,a_elu) break; case 3: GO(softsign_uc_ua,a_ssign) break; } }
SCENARIO(lsuv){ g_h.clear(); int a=mc::choose(4),pack=mc::choose(2),n=4+mc::choose(2),pat=mc::choose(3); mc::shard(); int cs=1+mc::choose(3),indiv=mc::choose(2),pre=mc::choose(2),tg=mc::choose(3),bt=mc::choose(4),outk=mc::choose(2),sd=mc::choose(2); g_W=1; g_order=0; WS s[3]; for(auto&q:s){ q.bVerbose=false; q.bSayIfScaleSpecial=false; q.bCentralNormalize=cs&1; q.bScaleNormalize=cs&2; q.bOnInvidualNeurons=indiv; q.bOverPreActivations=pre; q.targetScale=tg==1?.25:1; q.targetCentral=tg==2?.5:0; q.batchSize=bt==1||bt==2?2:bt==3?3:0; q.batchCount=bt==2?1:0; if(tg==1) q.maxReinitTries=1; } if(outk) s[2].maxTries=0; else s[2].bOverPreActivations=true; if(n==5&&bt==2&&indiv) {} H("lsuv act=%d pack=%d samples=%d data=%d normalise=%d individual=%d pre=%d target=%d batches=%d output=%d seed=%d",a,pack,n,pat,cs,indiv,pre,tg,bt,outk,sd); mc::state((((((((((a*2+pack)*2+n-4)*3+pat)*4+cs)*2+indiv)*2+pre)*3+tg)*4+bt)*2+outk)*2+sd); go(a,pack,mkD(n,pack?3:2,pat),s,0,0,sd); mc::sample("%s",g_h.c_str()); }
// individual settings per layer, default settings
SCENARIO(lsuv_settings){ g_h.clear(); int pack=mc::choose(2),k0=mc::choose(6),k1=mc::choose(6),k2=mc::choose(6); mc::shard(); int defK=mc::choose(3),custom=mc::choose(2); g_W=1; g_order=0; WS s[3]; int K[3]={k0,k1,k2}; for(int q=0;q<3;q++){ auto&w=s[q]; w.bVerbose=false; w.bSayIfScaleSpecial=false; w.bOverPreActivations=true; w.ScaleTolerance=w.CentralTolerance=R(.001); switch(K[q]){ case 0: break; case 1: w.maxTries=0; break; case 2: w.bCentralNormalize=false; w.targetScale=2; break; case 3: w.bScaleNormalize=false; w.targetCentral=-1; break; case 4: w.bOnInvidualNeurons=true; w.targetScale=R(.5); break; case 5: w.bCentralNormalize=w.bScaleNormalize=false; break; } } H("lsuv settings pack=%d kinds=%d,%d,%d default=%d explicit=%d",pack,k0,k1,k2,defK,custom); mc::state(((((pack*6+k0)*6+k1)*6+k2)*3+defK)*2+custom); go(0,pack,mkD(5,pack?3:2,0),s,defK,custom,1); mc::sample("%s",g_h.c_str()); }
// per-layer settings: every history of set_default / add over 3 layers, queried in full after every step
SCENARIO(settings_store){ g_h.clear(); typedef nntl::utils::layer_settings<std::string> LS; int L=mc::thorough()?5:4; int ctor=mc::choose(2); LS a=ctor?LS(std::string("D")):LS(); std::string def=ctor?"D":""; std::map<nntl::layer_index_t,std::string> m; mc::shard(); H(ctor?"ctor(D)":"ctor()");
 for(int k=0;k<L;k++){ int op=mc::choose(5); if(op==4) break; std::string v="v"+std::to_string(k); LS*r=0; if(op==3){ H(" set_default(%s)",v.c_str()); r=&a.set_default(v); def=v; } else { int idx=op==2?7:op; H(" add(%d,%s)",idx,v.c_str()); r=&a.add(idx,v); m[idx]=v; } mc::op(); CK(r==&a,"a setter does not answer its object");
  for(int i=0;i<9;i++){ auto e=m.count(i)?m[i]:def; CK(a.get(i)==e&&a[i]==e,"layer %d has '%s' instead of '%s'",i,a.get(i).c_str(),e.c_str()); } CK(a.get_default()==def,"default is '%s'",a.get_default().c_str());
  std::multiset<std::string> s,e; a.for_each([&](const std::string&x){ s.insert(x); }); e.insert(def); for(auto&q:m) e.insert(q.second); CK(s==e,"for_each visits %d settings, %d exist",(int)s.size(),(int)e.size()); }
 mc::state(std::hash<std::string>()(g_h)); mc::outcome(std::hash<std::string>()(g_h)); mc::sample("%s",g_h.c_str()); }
