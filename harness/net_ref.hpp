// Whole networks against a scalar reference: the reference evaluates the architecture sample by sample in long double; gradients
// come from differentiating that reference numerically.
#pragma once
#include "netx.hpp"
#include "nntl/nntl.h"
#include "nntl/layer/extensions.h"
#ifndef NET_INSP
#define NET_INSP inspector::dummy<double>
#endif
typedef double R; typedef HI<R,NET_INSP> I; typedef nntl::grad_works<I> GWk; typedef long double LD;
namespace act=nntl::activation; namespace la=nntl::loss_addendum;
struct Mat{ int r=0,c=0; std::vector<LD> a; Mat(){} Mat(int r,int c):r(r),c(c),a((size_t)r*c,0){} LD& operator()(int i,int j){ return a[(size_t)i*c+j]; } LD operator()(int i,int j)const{ return a[(size_t)i*c+j]; } };
typedef std::function<LD(LD)> AF;
static LD a_sg(LD z){ return 1/(1+std::exp(-z)); } static LD a_id(LD z){ return z; } static LD a_relu(LD z){ return z>0?z:0; } static LD a_lrelu(LD z){ return z>0?z:z/100; } static LD a_elu(LD z){ return z>0?z:std::expm1(z); }
static LD a_ssign(LD z){ return z/(1+std::fabs(z)); } static LD a_selu(LD z){ const LD l=1.0507009873554804934193349852946L,al=1.6732632423543772848170429916717L; return z>0?l*z:l*al*std::expm1(z); } static LD a_ssigm(LD z){ return (1+z/(1+std::fabs(z)))/2; }
static std::vector<double> g_rec; static int g_pat=0;
// reference evaluation context
struct Ctx{ std::vector<Mat> W; bool train=false; std::vector<int> rows; LD pen=0; std::vector<double> draws; size_t dpos=0;
	Mat dense(int k,const Mat&in,AF f){ const Mat&w=W[k]; if(in.c+1!=w.c) mc::fail("harness: weights of layer %d",k); rows[k]=in.r; Mat o(in.r,w.r); for(int i=0;i<in.r;i++) for(int n=0;n<w.r;n++){ LD s=w(n,in.c); for(int j=0;j<in.c;j++) s+=w(n,j)*in(i,j); o(i,n)=f(s); } return o; }
	Mat dense_sm(int k,const Mat&in){ Mat o=dense(k,in,a_id); for(int i=0;i<o.r;i++){ LD m=o(i,0); for(int j=1;j<o.c;j++) m=std::max(m,o(i,j)); LD s=0; for(int j=0;j<o.c;j++) s+=(o(i,j)=std::exp(o(i,j)-m)); for(int j=0;j<o.c;j++) o(i,j)/=s; } return o; }
	// dropout draws arrive in the order of the matrix's memory (column after column)
	Mat drop(const Mat&in,LD p){ if(!train) return in; Mat o=in; for(int j=0;j<o.c;j++) for(int i=0;i<o.r;i++) o(i,j)=draws.at(dpos++)<(double)p?in(i,j)/p:0; return o; }
	Mat adrop(const Mat&in,LD q){ if(!train) return in; const LD ap=-1.0507009873554804934193349852946L*1.6732632423543772848170429916717L; LD a=1/std::sqrt(q+ap*ap*q*(1-q)), b=-a*(1-q)*ap; Mat o=in; for(int j=0;j<o.c;j++) for(int i=0;i<o.r;i++) o(i,j)=draws.at(dpos++)<(double)q?a*in(i,j)+b:a*ap+b; return o; }
	void penL2(const Mat&m,LD s,int from=0){ for(int i=0;i<m.r;i++) for(int j=from;j<m.c;j++) pen+=s*m(i,j)*m(i,j)/2; }
	void penL1(const Mat&m,LD s,int from=0){ for(int i=0;i<m.r;i++) for(int j=from;j<m.c;j++) pen+=s*std::fabs(m(i,j)); }
	void penDC(const Mat&m,LD s,int from=0){ int c=m.c-from; std::vector<LD> mu(c,0); for(int j=0;j<c;j++){ for(int i=0;i<m.r;i++) mu[j]+=m(i,j+from); mu[j]/=m.r; } for(int x=0;x<c;x++) for(int y=x+1;y<c;y++){ LD v=0; for(int i=0;i<m.r;i++) v+=(m(i,x+from)-mu[x])*(m(i,y+from)-mu[y]); v/=m.r; pen+=s*v*v/(c-1); } }
};
static Mat cols(const Mat&m,int o,int n){ Mat q(m.r,n); for(int i=0;i<m.r;i++) for(int j=0;j<n;j++) q(i,j)=m(i,o+j); return q; }
static Mat hcat(std::initializer_list<Mat> l){ int r=l.begin()->r,c=0; for(auto&m:l) c+=m.c; Mat q(r,c); int o=0; for(auto&m:l){ for(int i=0;i<r;i++) for(int j=0;j<m.c;j++) q(i,o+j)=m(i,j); o+=m.c; } return q; }
template<class F> static Mat tile(const Mat&m,int k,F f){ int w=m.c/k; Mat s(m.r*k,w); for(int t=0;t<k;t++) for(int i=0;i<m.r;i++) for(int j=0;j<w;j++) s(t*m.r+i,j)=m(i,t*w+j); Mat o=f(s); Mat q(m.r,o.c*k); for(int t=0;t<k;t++) for(int i=0;i<m.r;i++) for(int j=0;j<o.c;j++) q(i,t*o.c+j)=o(t*m.r+i,j); return q; }
// one gated branch: only the samples with an open gate go through f, the others give zeros
template<class F> static Mat gated(const Mat&gate,int g,const Mat&in,int outc,F f){ std::vector<int> ix; for(int i=0;i<in.r;i++) if(gate(i,g)!=0) ix.push_back(i); Mat o(in.r,outc); if(ix.empty()) return o; Mat s((int)ix.size(),in.c); for(size_t q=0;q<ix.size();q++) for(int j=0;j<in.c;j++) s((int)q,j)=in(ix[q],j); Mat t=f(s); for(size_t q=0;q<ix.size();q++) for(int j=0;j<outc;j++) o(ix[q],j)=t((int)q,j); return o; }
static Mat binz(const Mat&m,LD f){ Mat q=m; for(auto&v:q.a) v=v>f?1:0; return q; } static Mat compl_(const Mat&m){ Mat q=m; for(auto&v:q.a) v=1-v; return q; }
enum LossK{ Quad, XE, SMXE };
static LD lossOf(LossK k,const Mat&o,const Mat&y){ LD s=0; for(size_t i=0;i<o.a.size();i++){ LD a=o.a[i],t=y.a[i]; s+=k==Quad?(a-t)*(a-t)/2:k==XE?-(t*std::log(a)+(1-t)*std::log(1-a)):-t*std::log(a); } return s; }
// a network under test
struct INet{ LossK lk=Quad; int xw=0,yw=0; LD lr=0; LD clampLo=0,clampHi=0; bool positiveX=false, addOff=false;
	virtual ~INet(){}
#ifdef NETX_BASE
	NETX_BASE
#endif
	 virtual Mat ref(Ctx&,const Mat&x)=0; virtual std::vector<math::smatrix<R>*> W()=0; virtual std::vector<bool> learns(){ return std::vector<bool>(W().size(),true); }
	virtual bool init(int maxF,int maxB)=0; virtual void fpropTrain(const math::smatrix<R>&x)=0; virtual void bprop(const math::smatrix<R>&y)=0; virtual bool infer(const math::smatrix<R>&x)=0; virtual const math::smatrix<R>& out()=0; virtual R lossv(const math::smatrix<R>&y)=0; virtual R addendum()=0; virtual void deinit()=0; virtual void fixedFprop(const math::smatrix<R>&x)=0; virtual bool initd(int f,int b)=0; virtual std::vector<std::function<bool(math::smatrix<R>&&)>> setW()=0; virtual void reinit()=0; virtual numel_cnt_t params()=0; virtual bool save(const char*){ return false; } virtual bool load(const char*){ return false; } };
