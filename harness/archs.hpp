#pragma once
// The networks explored by P12, P19 and P22: architectures with their reference definitions, and the driver Run.
#include "net_ref.hpp"
#ifndef NETX
#define NETX
#endif
// every network: members, then lp and nn; NETBODY supplies the uniform interface
#define NETBODY(LAST,...) \
	nntl::layers<__VA_ARGS__> lp; struct NN: nntl::nnet<nntl::layers<__VA_ARGS__>>{ typedef nntl::nnet<nntl::layers<__VA_ARGS__>> B; using B::B; void setTrain(int bs){ this->_set_training_mode_and_batch_size(bs); } numel_cnt_t prm(){ return this->m_LMR.totalParamsToLearn; } }; NN nn; \
	bool init(int f,int b)override{ return nn.___init(f,b,false)==NN::ErrorCode::Success; } void fpropTrain(const math::smatrix<R>&x)override{ nn.setTrain(x.batch_size()); lp.fprop(x); } void bprop(const math::smatrix<R>&y)override{ lp.bprop(y); } bool infer(const math::smatrix<R>&x)override{ return nn.fprop(x)==NN::ErrorCode::Success; } \
	void fixedFprop(const math::smatrix<R>&x)override{ nn.prepare_to_doFixedBatchFprop(x.batch_size()); nn.doFixedBatchFprop(x); } const math::smatrix<R>& out()override{ return lp.output_layer().get_activations(); } R lossv(const math::smatrix<R>&y)override{ return lp.output_layer().calc_loss(y); } R addendum()override{ lp.resetCalcLossAddendum(); return lp.calcLossAddendum(); } void deinit()override{ nn.deinit(); } bool initd(int f,int b)override{ return nn.is_initialized(f,b); } void reinit()override{ nn.require_reinit(); } numel_cnt_t params()override{ return nn.prm(); } NETX
#ifndef WSX
#define WSX(...)
#endif
#define WS(...) WSX(__VA_ARGS__) std::vector<math::smatrix<R>*> W()override{ return wp(__VA_ARGS__); } std::vector<std::function<bool(math::smatrix<R>&&)>> setW()override{ return sw(__VA_ARGS__); }
template<class...T> static std::vector<math::smatrix<R>*> wp(T&...l){ return {const_cast<math::smatrix<R>*>(static_cast<const math::smatrix<R>*>(&l.get_weights()))...}; }
template<class...T> static std::vector<std::function<bool(math::smatrix<R>&&)>> sw(T&...l){ return {std::function<bool(math::smatrix<R>&&)>([&l](math::smatrix<R>&&m){ return l.set_weights(std::move(m)); })...}; }
template<class A> using FC=nntl::LFC<A,GWk>; template<class A> using OutL=nntl::layer_output<A,GWk>; typedef nntl::layer_input<I> INP;
typedef nntl::weights_init::XavierFour WI;
#define LRV R(0.25)
#define SG act::sigm<R,WI>
#define SS act::softsign<R>
// ---- architectures
template<class A,class O> struct N_fc: INet{ AF f,fo; INP i; FC<A> h; OutL<O> o; NETBODY(o,INP,FC<A>,OutL<O>) N_fc(AF f,AF fo,LossK k,int x=2,int n=3,int y=2):f(f),fo(fo),i(x),h(n,LRV),o(y,LRV),lp(i,h,o),nn(lp){ lk=k; xw=x; yw=y; lr=LRV; } WS(h,o) Mat ref(Ctx&c,const Mat&x)override{ Mat m=c.dense(0,x,f); return fo?c.dense(1,m,fo):c.dense_sm(1,m); } };
struct N_deep: INet{ INP i; FC<SG> a; FC<SS> b; FC<act::relu<R>> d; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SG>,FC<SS>,FC<act::relu<R>>,OutL<act::sigm_quad_loss<R,WI>>) N_deep():i(2),a(3,LRV),b(1,LRV),d(2,LRV),o(1,LRV),lp(i,a,b,d,o),nn(lp){ xw=2; yw=1; lr=LRV; } WS(a,b,d,o) Mat ref(Ctx&c,const Mat&x)override{ return c.dense(3,c.dense(2,c.dense(1,c.dense(0,x,a_sg),a_ssign),a_relu),a_sg); } };
struct N_fponly: INet{ typedef nntl::LFC_FProp<I,SG> FP; INP i; FP a; FC<SS> b; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FP,FC<SS>,OutL<act::sigm_quad_loss<R,WI>>) N_fponly():i(2),a(3),b(2,LRV),o(1,LRV),lp(i,a,b,o),nn(lp){ xw=2; yw=1; lr=LRV; } WS(a,b,o) std::vector<bool> learns()override{ return {false,true,true}; } Mat ref(Ctx&c,const Mat&x)override{ return c.dense(2,c.dense(1,c.dense(0,x,a_sg),a_ssign),a_sg); } };
struct N_frozen: INet{ INP i; FC<SG> a; FC<SS> b; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SG>,FC<SS>,OutL<act::sigm_quad_loss<R,WI>>) N_frozen():i(2),a(3,LRV),b(2,LRV),o(1,LRV),lp(i,a,b,o),nn(lp){ xw=2; yw=1; lr=LRV; b._setUpdateWeights(false); } WS(a,b,o) std::vector<bool> learns()override{ return {true,false,true}; } Mat ref(Ctx&c,const Mat&x)override{ return c.dense(2,c.dense(1,c.dense(0,x,a_sg),a_ssign),a_sg); } };
struct N_lpv: INet{ typedef nntl::LPV<FC<SG>,FC<SS>> V; typedef nntl::LPV<V,FC<SG>> V2; INP i; FC<SS> u; FC<SG> a; FC<SS> b; FC<SG> d; V v; V2 v2; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SS>,V2,OutL<act::sigm_quad_loss<R,WI>>) N_lpv():i(2),u(2,LRV),a(3,LRV),b(2,LRV),d(2,LRV),v(a,b),v2(v,d),o(1,LRV),lp(i,u,v2,o),nn(lp){ xw=2; yw=1; lr=LRV; } WS(u,a,b,d,o) Mat ref(Ctx&c,const Mat&x)override{ return c.dense(4,c.dense(3,c.dense(2,c.dense(1,c.dense(0,x,a_ssign),a_sg),a_ssign),a_sg),a_sg); } };
struct N_lpvIn: INet{ typedef nntl::LPV<FC<SG>,FC<SS>> V; INP i; FC<SG> a; FC<SS> b; V v; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,V,OutL<act::sigm_quad_loss<R,WI>>) N_lpvIn():i(2),a(3,LRV),b(2,LRV),v(a,b),o(1,LRV),lp(i,v,o),nn(lp){ xw=2; yw=1; lr=LRV; } WS(a,b,o) Mat ref(Ctx&c,const Mat&x)override{ return c.dense(2,c.dense(1,c.dense(0,x,a_sg),a_ssign),a_sg); } };
// horizontal pack with overlapping receptive fields, an identity layer and a vertical pack inside
template<bool OnInput> struct N_lph: INet{ typedef nntl::LPV<FC<SS>,FC<SG>> V; typedef nntl::LI<I> ID; typedef nntl::LPH<nntl::PHL<FC<SG>>,nntl::PHL<ID>,nntl::PHL<V>> H; INP i; FC<SS> u; FC<SG> a; ID id; FC<SS> p; FC<SG> q; V v; H h; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SS>,H,OutL<act::sigm_quad_loss<R,WI>>)
	N_lph():i(2),u(3,LRV),a(2,LRV),p(2,LRV),q(1,LRV),v(p,q),h(nntl::make_PHL(a,0,2),nntl::make_PHL(id,1,2),nntl::make_PHL(v,1,2)),o(1,LRV),lp(i,u,h,o),nn(lp){ xw=2; yw=1; lr=LRV; } WS(u,a,p,q,o) Mat ref(Ctx&c,const Mat&x)override{ Mat m=c.dense(0,x,a_ssign); return c.dense(4,hcat({c.dense(1,cols(m,0,2),a_sg),cols(m,1,2),c.dense(3,c.dense(2,cols(m,1,2),a_ssign),a_sg)}),a_sg); } };
struct N_lphIn: INet{ typedef nntl::LPH<nntl::PHL<FC<SG>>,nntl::PHL<FC<SS>>> H; INP i; FC<SG> a; FC<SS> b; H h; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,H,OutL<act::sigm_quad_loss<R,WI>>) N_lphIn():i(3),a(2,LRV),b(3,LRV),h(nntl::make_PHL(a,0,2),nntl::make_PHL(b,1,2)),o(1,LRV),lp(i,h,o),nn(lp){ xw=3; yw=1; lr=LRV; } WS(a,b,o) Mat ref(Ctx&c,const Mat&x)override{ return c.dense(2,hcat({c.dense(0,cols(x,0,2),a_sg),c.dense(1,cols(x,1,2),a_ssign)}),a_sg); } };
struct N_lpt: INet{ typedef nntl::LPT<FC<SG>> T; INP i; FC<SS> u; FC<SG> a; T t; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SS>,T,OutL<act::sigm_quad_loss<R,WI>>) N_lpt():i(2),u(4,LRV),a(3,LRV),t(a,2),o(1,LRV),lp(i,u,t,o),nn(lp){ xw=2; yw=1; lr=LRV; } WS(u,a,o) Mat ref(Ctx&c,const Mat&x)override{ return c.dense(2,tile(c.dense(0,x,a_ssign),2,[&](const Mat&m){ return c.dense(1,m,a_sg); }),a_sg); } };
struct N_lptV: INet{ typedef nntl::LPV<FC<SG>,FC<SS>> V; typedef nntl::LPT<V> T; INP i; FC<SG> a; FC<SS> b; V v; T t; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,T,OutL<act::sigm_quad_loss<R,WI>>) N_lptV():i(6),a(1,LRV),b(3,LRV),v(a,b),t(v,3),o(1,LRV),lp(i,t,o),nn(lp){ xw=6; yw=1; lr=LRV; } WS(a,b,o) Mat ref(Ctx&c,const Mat&x)override{ return c.dense(2,tile(x,3,[&](const Mat&m){ return c.dense(1,c.dense(0,m,a_sg),a_ssign); }),a_sg); } };
// gated packs: gate columns first, then two gated branches; over the input or over a layer
template<bool NP,bool Bin> struct N_lphoIn: INet{ typedef nntl::LIGf<Bin?300000:0,Bin,I> G; typedef nntl::LPV<FC<SS>,FC<SG>> V; typedef nntl::LPHO<NP,nntl::PHL<G>,nntl::PHL<FC<SG>>,nntl::PHL<V>> H; INP i; G g; FC<SG> a; FC<SS> p; FC<SG> q; V v; H h; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,H,OutL<act::sigm_quad_loss<R,WI>>)
	N_lphoIn():i(5),a(2,LRV),p(2,LRV),q(1,LRV),v(p,q),h(nntl::make_PHL(g,0,2),nntl::make_PHL(a,2,1),nntl::make_PHL(v,3,2)),o(1,LRV),lp(i,h,o),nn(lp){ xw=5; yw=1; lr=LRV; positiveX=true; } WS(a,p,q,o)
	Mat ref(Ctx&c,const Mat&x)override{ for(int k=0;k<3;k++) c.rows[k]=0; Mat g0=cols(x,0,2); Mat gt=Bin?binz(g0,0.3L):g0; Mat b1=gated(gt,0,cols(x,2,1),2,[&](const Mat&m){ return c.dense(0,m,a_sg); }), b2=gated(gt,1,cols(x,3,2),1,[&](const Mat&m){ return c.dense(2,c.dense(1,m,a_ssign),a_sg); }); return c.dense(3,NP?hcat({gt,compl_(gt),b1,b2}):hcat({gt,b1,b2}),a_sg); } };
template<bool NP> struct N_lpho: INet{ typedef nntl::LIG<500000,I> G; typedef nntl::LPHO<NP,nntl::PHL<G>,nntl::PHL<FC<SG>>,nntl::PHL<FC<SS>>> H; INP i; FC<SG> u; G g; FC<SG> a; FC<SS> b; H h; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SG>,H,OutL<act::sigm_quad_loss<R,WI>>)
	N_lpho():i(2),u(5,LRV),a(2,LRV),b(1,LRV),h(nntl::make_PHL(g,0,2),nntl::make_PHL(a,2,2),nntl::make_PHL(b,4,1)),o(1,LRV),lp(i,u,h,o),nn(lp){ xw=2; yw=1; lr=LRV; } WS(u,a,b,o)
	Mat ref(Ctx&c,const Mat&x)override{ c.rows[1]=c.rows[2]=0; Mat m=c.dense(0,x,a_sg); Mat gt=binz(cols(m,0,2),0.5L); Mat b1=gated(gt,0,cols(m,2,2),2,[&](const Mat&q){ return c.dense(1,q,a_sg); }), b2=gated(gt,1,cols(m,4,1),1,[&](const Mat&q){ return c.dense(2,q,a_ssign); }); return c.dense(3,NP?hcat({gt,compl_(gt),b1,b2}):hcat({gt,b1,b2}),a_sg); } };
// dropout, penalised activations and both
struct N_do: INet{ typedef nntl::LFC_DO<SG,GWk,nntl::Dropout<R>> L; INP i; FC<SS> u; L a; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SS>,L,OutL<act::sigm_quad_loss<R,WI>>) N_do():i(2),u(2,LRV),a(2,LRV),o(1,LRV),lp(i,u,a,o),nn(lp){ xw=2; yw=1; lr=LRV; a.dropoutPercentActive(R(0.75)); } WS(u,a,o) Mat ref(Ctx&c,const Mat&x)override{ return c.dense(2,c.drop(c.dense(1,c.dense(0,x,a_ssign),a_sg),0.75L),a_sg); } };
struct N_ado: INet{ typedef nntl::LFC_DO<act::selu<R>,GWk,nntl::AlphaDropout<R>> L; INP i; FC<SS> u; L a; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SS>,L,OutL<act::sigm_quad_loss<R,WI>>) N_ado():i(2),u(2,LRV),a(2,LRV),o(1,LRV),lp(i,u,a,o),nn(lp){ xw=2; yw=1; lr=LRV; a.dropoutPercentActive(R(0.75)); } WS(u,a,o) Mat ref(Ctx&c,const Mat&x)override{ return c.dense(2,c.adrop(c.dense(1,c.dense(0,x,a_ssign),a_selu),0.75L),a_sg); } };
template<class LAT,int K> struct N_pa: INet{ typedef nntl::LFC_PA<std::tuple<LAT>,SS,GWk> L; INP i; FC<SG> u; L a; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SG>,L,OutL<act::sigm_quad_loss<R,WI>>) N_pa():i(2),u(2,LRV),a(3,LRV),o(1,LRV),lp(i,u,a,o),nn(lp){ xw=2; yw=1; lr=LRV; a.template addendum<0>().scale(R(0.5)); } WS(u,a,o) Mat ref(Ctx&c,const Mat&x)override{ Mat m=c.dense(1,c.dense(0,x,a_sg),a_ssign); if(K==0) c.penL1(m,0.5L); else if(K==1) c.penL2(m,0.5L); else c.penDC(m,0.5L); return c.dense(2,m,a_sg); } };
struct N_padoc: INet{ typedef nntl::LFC_PA_DO<std::tuple<la::L2<R,true>,la::L1<R>>,SS,GWk,nntl::Dropout<R>> L; INP i; FC<SG> u; L a; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SG>,L,OutL<act::sigm_quad_loss<R,WI>>) N_padoc():i(2),u(2,LRV),a(2,LRV),o(1,LRV),lp(i,u,a,o),nn(lp){ xw=2; yw=1; lr=LRV; a.addendum<0>().scale(R(0.5)); a.addendum<1>().scale(R(0.25)); a.dropoutPercentActive(R(0.75)); } WS(u,a,o) Mat ref(Ctx&c,const Mat&x)override{ Mat m=c.dense(1,c.dense(0,x,a_sg),a_ssign); c.penL2(m,0.5L); c.penL1(m,0.25L); return c.dense(2,c.drop(m,0.75L),a_sg); } };
struct N_lphDO: INet{ typedef nntl::PHL<FC<SG>> P1; typedef nntl::PHL<FC<SS>> P2; typedef nntl::LPH_DO<nntl::Dropout<R>,P1,P2> H; INP i; FC<SS> u; FC<SG> a; FC<SS> b; H h; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,FC<SS>,H,OutL<act::sigm_quad_loss<R,WI>>) N_lphDO():i(2),u(3,LRV),a(1,LRV),b(1,LRV),h("h",nntl::make_PHL(a,0,2),nntl::make_PHL(b,1,2)),o(1,LRV),lp(i,u,h,o),nn(lp){ xw=2; yw=1; lr=LRV; h.dropoutPercentActive(R(0.75)); } WS(u,a,b,o) Mat ref(Ctx&c,const Mat&x)override{ Mat m=c.dense(0,x,a_ssign); return c.dense(3,c.drop(hcat({c.dense(1,cols(m,0,2),a_sg),c.dense(2,cols(m,1,2),a_ssign)}),0.75L),a_sg); } };
template<class LAT,int K> struct N_lphoPA: INet{ typedef nntl::LIG<300000,I> G; typedef nntl::PHL<G> P0; typedef nntl::PHL<FC<SG>> P1; typedef nntl::PHL<FC<SS>> P2; typedef nntl::LPHO_PA<std::tuple<LAT>,false,P0,P1,P2> H; INP i; G g; FC<SG> a; FC<SS> b; H h; OutL<act::sigm_quad_loss<R,WI>> o; NETBODY(o,INP,H,OutL<act::sigm_quad_loss<R,WI>>)
	N_lphoPA():i(4),a(2,LRV),b(1,LRV),h(nullptr,std::make_tuple(nntl::make_PHL(g,0,2),nntl::make_PHL(a,2,1),nntl::make_PHL(b,3,1))),o(1,LRV),lp(i,h,o),nn(lp){ xw=4; yw=1; lr=LRV; positiveX=true; h.template addendum<0>().scale(R(0.5)); } WS(a,b,o)
	Mat ref(Ctx&c,const Mat&x)override{ c.rows[0]=c.rows[1]=0; Mat gt=binz(cols(x,0,2),0.3L); Mat b1=gated(gt,0,cols(x,2,1),2,[&](const Mat&m){ return c.dense(0,m,a_sg); }), b2=gated(gt,1,cols(x,3,1),1,[&](const Mat&m){ return c.dense(1,m,a_ssign); }); Mat m=hcat({gt,b1,b2}); if(K==0) c.penL1(m,0.5L,2); else if(K==1) c.penL2(m,0.5L,2); else c.penDC(m,0.5L,2); return c.dense(2,m,a_sg); } };
struct N_clamp: INet{ INP i; FC<SG> a; OutL<act::identity_quad_loss<R>> o; NETBODY(o,INP,FC<SG>,OutL<act::identity_quad_loss<R>>) N_clamp():i(2),a(2,LRV),o(2,LRV),lp(i,a,o),nn(lp){ xw=2; yw=2; lr=LRV; clampLo=-0.3L; clampHi=0.2L; o.restrict_dL_dZ(R(-0.3),R(0.2)); } WS(a,o) Mat ref(Ctx&c,const Mat&x)override{ return c.dense(1,c.dense(0,x,a_sg),a_id); } };

typedef std::unique_ptr<INet> NP; struct Arch{ const char*n; std::function<NP()> mk; };
#define AR(N,...) {#N,[]{ return NP(new __VA_ARGS__); }}
static const std::vector<Arch>& archs(){ static const std::vector<Arch> v={
	AR(fc_sigm_quad,N_fc<SG,act::sigm_quad_loss<R,WI>>(a_sg,a_sg,Quad)),AR(fc_relu_xe,N_fc<act::relu<R>,act::sigm_xentropy_loss<R,WI>>(a_relu,a_sg,XE)),AR(fc_ident_ident,N_fc<act::identity<R>,act::identity_quad_loss<R>>(a_id,a_id,Quad,1,1,1)),AR(fc_elu_softsigm,N_fc<act::elu<R>,act::softsigm_quad_loss<R>>(a_elu,a_ssigm,Quad,3,1,2)),
	AR(deep,N_deep),AR(fprop_only,N_fponly),AR(frozen,N_frozen),AR(lpv,N_lpv),AR(lpv_on_input,N_lpvIn),AR(lph,N_lph<false>),AR(lph_on_input,N_lphIn),AR(lpt,N_lpt),AR(lpt_lpv_on_input,N_lptV),
	AR(lpho_np_bin,N_lphoIn<true,true>),AR(lpho_bin,N_lphoIn<false,true>),AR(lpho_np_real,N_lphoIn<true,false>),AR(lpho_real,N_lphoIn<false,false>),AR(lpho_over_layer,N_lpho<false>),AR(lpho_np_over_layer,N_lpho<true>),
	AR(dropout,N_do),AR(alpha_dropout,N_ado),AR(lph_dropout,N_lphDO),AR(pen_L1,N_pa<la::L1<R>,0>),AR(pen_L2,N_pa<la::L2<R>,1>),AR(pen_L2_f,N_pa<la::L2<R,true>,1>),AR(pen_DeCov,N_pa<la::DeCov<R>,2>),AR(pen_DeCov_f,N_pa<la::DeCov<R,true,true,true>,2>),AR(pen_and_dropout,N_padoc),AR(lpho_pen_L2,N_lphoPA<la::L2<R>,1>),AR(lpho_pen_DeCov,N_lphoPA<la::DeCov<R>,2>),AR(clamped_output,N_clamp)}; return v; }
static double wpat(int p,int k,int i){ static const double V[]={0.6,-0.35,0.85,-0.7,0.2,-0.55,0.45,-0.15,0.95,-0.9,0.3}; return V[(i*(p+1)+k*3+p*5)%11]*(p==2?-1.3:1); }
static double xpat(int p,int i,int j){ static const double V[]={0.5,-0.75,1.2,-0.3,0.9,-1.1,0.1}; return V[(i*3+j*2+p*4+i*p)%7]; }
static double ypat(LossK k,int p,int i,int j,int yw){ if(k==SMXE) return (i+p)%yw==j?1:0; if(k==XE) return (i+j+p)%2; return 0.15+0.2*((i*2+j+p)%4); }
struct Run{ INet&n; std::vector<Mat> w; int gates; int maxF=2,maxB=2; std::string hist; Run(INet&n):n(n){}
	math::smatrix<R> X(int bs,int p){ math::smatrix<R> m(bs,n.xw,true); int g=n.positiveX?2:0; for(int i=0;i<bs;i++) for(int j=0;j<n.xw;j++) m.set(i,j,j<g?(((gates>>(i*2+j))&1)?(j?0.75:0.5):0.):xpat(p,i,j)); return m; }
	math::smatrix<R> Y(int bs,int p){ math::smatrix<R> m(bs,n.yw,false); for(int i=0;i<bs;i++) for(int j=0;j<n.yw;j++) m.set(i,j,ypat(n.lk,p,i,j,n.yw)); return m; }
	static Mat M(const math::smatrix<R>&m,bool nb=true){ Mat q(m.rows(),nb?m.cols_no_bias():m.cols()); for(int i=0;i<q.r;i++) for(int j=0;j<q.c;j++) q(i,j)=m.get(i,j); return q; }
	Ctx ctx(bool tr){ Ctx c; c.W=w; c.train=tr; c.rows.assign(w.size(),-1); c.draws=g_rec; return c; }
	void readW(){ w.clear(); for(auto*p:n.W()) w.push_back(M(*p,false)); }
	void setPat(int p){ auto s=n.setW(); auto old=n.W(); for(size_t k=0;k<s.size();k++){ int r=old[k]->rows(),c=old[k]->cols(); if(r==0){ r=w[k].r; c=w[k].c; } math::smatrix<R> bad(r,c+1,false); bad.zeros(); CHECK(!s[k](std::move(bad)),"weights of a wrong shape were accepted | %s",hist.c_str()); math::smatrix<R> m(r,c,false); for(int i=0;i<m.rows();i++) for(int j=0;j<m.cols();j++) m.set(i,j,wpat(p,(int)k,i+j*m.rows())); CHECK(s[k](std::move(m)),"set_weights refused | %s",hist.c_str()); } readW(); }
	void cmp(const math::smatrix<R>&g,const Mat&e,const char*what){ CHECK((int)g.rows()==e.r&&(int)g.cols_no_bias()==e.c,"%s: %dx%d instead of %dx%d | %s",what,(int)g.rows(),(int)g.cols_no_bias(),e.r,e.c,hist.c_str()); for(int i=0;i<e.r;i++) for(int j=0;j<e.c;j++) CHECK(std::fabs((double)(g.get(i,j)-e(i,j)))<1e-11*(1+std::fabs((double)e(i,j))),"%s(%d,%d)=%.12g, expected %.12g | %s",what,i,j,g.get(i,j),(double)e(i,j),hist.c_str()); }
	void sameW(){ auto p=n.W(); for(size_t k=0;k<p.size();k++) for(int i=0;i<w[k].r;i++) for(int j=0;j<w[k].c;j++) CHECK((LD)p[k]->get(i,j)==w[k](i,j),"weight %d(%d,%d) changed by inference | %s",(int)k,i,j,hist.c_str()); }
	void infer(int bs,int p,bool fixed){ auto x=X(bs,p); auto x0=M(x); Mat xb=M(x,false); g_rec.clear(); if(fixed) n.fixedFprop(x); else CHECK(n.infer(x),"fprop failed | %s",hist.c_str()); mc::op(); Ctx c=ctx(false); Mat e=n.ref(c,x0); cmp(n.out(),e,"output"); sameW(); Mat x1=M(x,false); CHECK(x1.a==xb.a,"input changed | %s",hist.c_str()); CHECK(g_rec.empty(),"inference drew random numbers | %s",hist.c_str());
		auto y=Y(bs,p); R l=n.lossv(y); LD el=lossOf(n.lk,e,M(y)); CHECK(std::fabs((double)(l-el))<1e-10*(1+std::fabs((double)el)),"loss=%.12g, expected %.12g | %s",l,(double)el,hist.c_str()); if(!n.addOff){ R ad=n.addendum(); CHECK(std::fabs((double)(ad-c.pen))<1e-10*(1+(double)c.pen),"loss addendum=%.12g, expected %.12g | %s",ad,(double)c.pen,hist.c_str()); } }
	LD obj(const Ctx&c0,const Mat&x,const Mat&y,int k,int i,int j,LD h){ Ctx c=c0; c.pen=0; c.dpos=0; if(k>=0) c.W[k](i,j)+=h; Mat o=n.ref(c,x); return (cl?clObj(o):lossOf(n.lk,o,y))+c.pen; }
	bool cl=false; Mat clG; LD clObj(const Mat&o){ LD s=0; for(size_t i=0;i<o.a.size();i++) s+=o.a[i]*clG.a[i]; return s; }
	void train(int bs,int p,bool full){ auto x=X(bs,p); auto y=Y(bs,p); CHECK(n.init(maxF,maxB),"init failed | %s",hist.c_str()); g_rec.clear(); n.fpropTrain(x); mc::op(); Mat mx=M(x),my=M(y); Ctx c=ctx(true); Mat o=n.ref(c,mx); CHECK(c.dpos==g_rec.size(),"%d random numbers drawn, %d expected | %s",(int)g_rec.size(),(int)c.dpos,hist.c_str()); if(full) cmp(n.out(),o,"training output");
		if(full){ R l=n.lossv(y); LD el=lossOf(n.lk,o,my); CHECK(std::fabs((double)(l-el))<1e-10*(1+std::fabs((double)el)),"training loss=%.12g, expected %.12g | %s",l,(double)el,hist.c_str()); }
		n.bprop(y); mc::op(); if(!full){ readW(); return; }
		if(n.clampHi!=0){ cl=true; clG=o; for(size_t i=0;i<o.a.size();i++) clG.a[i]=std::min(n.clampHi,std::max(n.clampLo,o.a[i]-my.a[i])); }
		auto wp=n.W(); auto ln=n.learns(); numel_cnt_t prm=0; for(size_t k=0;k<wp.size();k++){ if(ln[k]) prm+=w[k].r*w[k].c; for(int i=0;i<w[k].r;i++) for(int j=0;j<w[k].c;j++){ double tol=1e-300; LD e=w[k](i,j); bool upd=ln[k]&&c.rows[k]>0; if(upd){ const LD h=1e-7L; LD g=(obj(c,mx,my,(int)k,i,j,h)-obj(c,mx,my,(int)k,i,j,-h))/(2*h), g2=(obj(c,mx,my,(int)k,i,j,2*h)-obj(c,mx,my,(int)k,i,j,-2*h))/(4*h); e-=n.lr*g/c.rows[k]; tol=2e-9+4*std::fabs((double)(g-g2)); } double a=wp[k]->get(i,j); CHECK(std::fabs((double)(a-e))<tol,"after a training step weight %d(%d,%d)=%.12g, but -lr*dL/dW gives %.12g (was %.12g) | %s",(int)k,i,j,a,(double)e,(double)w[k](i,j),hist.c_str()); } }
		cl=false; CHECK(n.params()==prm,"number of learnable parameters %d, expected %d | %s",(int)n.params(),(int)prm,hist.c_str()); Mat x2=M(x),y2=M(y); CHECK(x2.a==mx.a&&y2.a==my.a,"training data changed | %s",hist.c_str()); readW(); }
};
// the scripted source of dropout masks
static std::vector<int> g_mask; static uint64_t g_dr=0;
static void rngPat(int pat){ g_dr=0; g_rng=[pat]{ static const double U[]={0.1,0.8,0.5,0.9,0.74,0.2,0.76}; double v; if(pat<0){ v=g_dr<g_mask.size()?(g_mask[g_dr]?0.7:0.8):0.3; } else v=U[(g_dr*(pat+1)+pat*2)%7]; g_dr++; g_rec.push_back(v); return v; }; }
