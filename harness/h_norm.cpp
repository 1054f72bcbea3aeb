// Normalisation of training data (whole / column-wise) and its statistics.
#include "tdx.hpp"
typedef std::vector<std::vector<double>> VV;
struct Cf{ bool cw,cen,sca,adj; double ts,tc; int bs,bc,tries; };
template<class M> static VV rd(const M&m){ VV v(m.batch_size(),std::vector<double>(m.sample_size())); for(int i=0;i<(int)m.batch_size();i++) for(int j=0;j<(int)m.sample_size();j++) v[i][j]=at(m,i,j); return v; }
static void stat(const VV&a,int n,int j,bool adj,double&mean,double&sd,int w){ double s=0,q=0; int c=0; for(int i=0;i<n;i++) for(int k=(j<0?0:j);k<(j<0?w:j+1);k++){ s+=a[i][k]; c++; } mean=s/c; for(int i=0;i<n;i++) for(int k=(j<0?0:j);k<(j<0?w:j+1);k++) q+=(a[i][k]-mean)*(a[i][k]-mean); sd=std::sqrt(q/(adj?c-1:c)); }
// Judges the result: one affine map per column (or for all), the same for both sets, statistics on target
static void judge(const Cf&c,bool r,const VV&o0,const VV&n0,const VV&o1,const VV&n1,int used,double tol){ int w=(int)o0[0].size(); bool any=false; double M=0; for(auto&r_:o0) for(double v:r_) M=std::max(M,std::fabs(v)); for(auto&r_:o1) for(double v:r_) M=std::max(M,std::fabs(v)); double need=0; for(int j=(c.cw?0:-1);j<(c.cw?w:0);j++){ double m,s; stat(o0,used,j,c.adj,m,s,w); bool ns=c.sca&&s>1e-12&&std::fabs(s-c.ts)>=0.01, nc=c.cen&&std::fabs(m-c.tc)>=0.01; if(ns||nc) need=1; double m2,s2; stat(n0,used,j,c.adj,m2,s2,w);
		// the affine map of this column (all columns)
		double sc=1,of=0; if(s>1e-12){ sc=s2/s; } of=m2-sc*m; double amp=(std::fabs(sc)*M+std::fabs(of)+1)*tol; for(int k=(c.cw?j:0);k<(c.cw?j+1:w);k++){ for(size_t i=0;i<o0.size();i++) CK(std::fabs(n0[i][k]-(sc*o0[i][k]+of))<=amp,"train(%d,%d)=%g is not the common map %g*x%+g of %g",(int)i,k,n0[i][k],sc,of,o0[i][k]); if(r) for(size_t i=0;i<o1.size();i++) CK(std::fabs(n1[i][k]-(sc*o1[i][k]+of))<=amp,"test(%d,%d)=%g, but the map of the training set %g*x%+g gives %g",(int)i,k,n1[i][k],sc,of,sc*o1[i][k]+of); }
		if(!c.sca) CK(std::fabs(sc-1)<1e-6,"scaled by %g though scaling is off",sc); if(!c.cen) CK(std::fabs(of)<=amp,"offset %g though centring is off",of);
		if(r){ if(c.sca&&s>1e-12) CK(std::fabs(s2-c.ts)<0.01+1e-6,"column %d: scale %g instead of %g",j,s2,c.ts); if(c.cen) CK(std::fabs(m2-c.tc)<0.01+1e-6,"column %d: centre %g instead of %g",j,m2,c.tc); if(!ns&&!nc) CK(std::fabs(sc-1)<1e-6&&std::fabs(of)<=amp,"column %d was already normal, but was changed",j); } }
	if(need&&c.tries>=4) CK(r,"normalisation failed"); if(!need){ CK(n0==o0&&n1==o1,"data that needed no change were changed"); } if(need==0) mc::note("nothing to normalise",1); if(!r) CK(n1==o1,"test set changed by a failed normalisation"); }
static const double PV[]={0,1,-2,3.5,0.25,7,-1,2.5};
template<class T> static void fill(nntl::inmem_train_data_stor<T,T>&st,int pat,int n0,int n1,int w,bool rowX=false){ for(int s=0;s<2;s++){ auto&m=st.X_mutable(s); int n=s?n1:n0; for(int i=0;i<n;i++) for(int j=0;j<w;j++){ double v; if(pat<0){ if(s==0){ int q=mc::choose(3); v=PV[q]; H(" %d",q); } else v=PV[(i+j*2)%8]; } else switch(pat){ case 0: v=PV[(i*3+j+s*2)%8]; break; case 1: v=j==0?4:PV[(i+j+s)%8]; break; case 2: v=100+PV[(i+2*j+s)%8]*(j+1)*3; break; case 3: v=PV[(i*5+j+s*3)%8]*0.01-3; break; case 4: v=(j&1)?((i&1)?0.7071:-0.7071):(i-1.0)*(j+1); break; case 5: v=(s==0?(i&1?1:-1)*std::sqrt((n0-1.)/n0):3); break; default: v=2; } m.set(i,j,(T)v); } } }
template<class T,bool ADJ> static void run(int pat,Env<T>&e,Cf c,int initSz){ typedef utils::mtx2Normal::_FNorm_stats_var_mean<ADJ> SF; typedef nntl::inmem_train_data<T> TD; TD td; absorbAll0(td,e); fill<T>(td,pat,e.n[0],e.n[1],e.xw); VV o0=rd(td.X(0)),o1=rd(td.X(1)),y0=rd(td.Y(0)),y1=rd(td.Y(1)); vec_len_t z=0; if(initSz){ vec_len_t q=initSz; if(td.init4inference(e.im,q)!=EC::Success) mc::fail("init"); } vec_len_t chk=c.bs<0?0:c.bs; bool was=td.is_initialized4inference(chk);
	typename nntl::_impl::td_norm<T,double,SF>::NormalizationSettings_t st; st.bColumnwise=c.cw; st.bCentralNormalize=c.cen; st.bScaleNormalize=c.sca; st.targetScale=c.ts; st.targetCentral=c.tc; st.batchSize=c.bs; st.batchCount=c.bc; st.maxTries=c.tries; st.bVerbose=false; bool r=td.template normalize_data<double,nntl::_impl::common_nn_data<HI<T>>,SF>(e.cd,st); mc::op(); VV n0=rd(td.X(0)),n1=rd(td.X(1)); CK(rd(td.Y(0))==y0&&rd(td.Y(1))==y1,"targets changed"); okBias(td.X(0)); okBias(td.X(1)); z=0; bool now=td.is_initialized4inference(z); bool asked=(c.cen||c.sca)&&c.tries; CK(now==(asked?was:initSz>0),"initialised=%d before, %d after normalisation",(int)was,(int)now);
	if(!(c.cen||c.sca)||c.tries==0){ CK(r,"nothing asked, but reported failure"); CK(n0==o0&&n1==o1,"nothing asked, but data changed"); return; } int bsz=c.bs<0?(initSz?std::min(initSz,std::max(e.n[0],e.n[1])):e.n[0]):c.bs; bsz=std::min(bsz,e.n[0]); int nb=(e.n[0]+bsz-1)/bsz; int used=c.bc&&c.bc<nb?std::min(e.n[0],c.bc*bsz):e.n[0]; judge(c,r,o0,n0,o1,n1,used,sizeof(T)==4?2e-5:1e-10); uint64_t h=r; for(auto&q:n0) for(double v:q) h=mc::hmix(h,mc::hbytes(&v,8)); mc::outcome(h); }
template<class T> static void go(bool exhaustive){ Env<T> e; g_h.clear(); e.n[0]=2+mc::choose(exhaustive?2:4); e.n[1]=1+mc::choose(exhaustive?1:2); e.xw=1+mc::choose(exhaustive?2:3); e.yw=1; e.lx=e.ly=false; g_W=1+mc::choose(3); g_order=(g_W==3); Cf c; c.cw=mc::choose(2); c.adj=mc::choose(2); mc::shard(); int m=exhaustive?3:mc::choose(4); c.cen=m&1; c.sca=m>>1; int t=mc::choose(2); c.ts=t?0.5:1; c.tc=t?2:0; int b=mc::choose(exhaustive?3:e.n[0]+1); c.bs=b?b:-1; c.bc=c.bs>0?mc::choose(3):0; if(c.bc*c.bs==1) throw mc::Skip(); static const int TRS[]={20,1,2,4,0}; c.tries=exhaustive?20:TRS[mc::choose(5)]; int pat=exhaustive?-1:mc::choose(7); int is=exhaustive?0:mc::choose(2)*(2); e.im.preinit(1); e.im.init(); H("normalise %s train=%d test=%d x=%d threads=%d cw=%d adj=%d centre=%d scale=%d target=%d batch=%d count=%d tries=%d data=%d init=%d",sizeof(T)==4?"float":"double",e.n[0],e.n[1],e.xw,g_W,c.cw,c.adj,c.cen,c.sca,t,c.bs,c.bc,c.tries,pat,is); if(c.adj) run<T,true>(pat,e,c,is); else run<T,false>(pat,e,c,is); mc::state(mc::hbytes(g_h.data(),g_h.size())); mc::sample("%s",g_h.c_str()); }
SCENARIO(inmem_double){ go<double>(false); } SCENARIO(inmem_all_values){ go<double>(true); } SCENARIO(inmem_float){ go<float>(false); }
// transformed data: the map is applied on the fly, the stored data stay as they are
template<class T,class SR> static void trf(){ Env<T> e; g_h.clear(); e.n[0]=2+mc::choose(3); e.n[1]=1+mc::choose(2); e.sibs=1+mc::choose(2); e.xw=2; e.yw=1; e.lx=e.ly=false; g_W=1+mc::choose(3); g_order=(g_W==3); mc::shard(); Cf c; c.cw=mc::choose(2); c.adj=true; int m=1+mc::choose(3); c.cen=m&1; c.sca=m>>1; int t=mc::choose(2); c.ts=t?0.5:1; c.tc=t?2:0; int b=mc::choose(e.n[0]+1); c.bs=b?b*e.sibs:-1; c.bc=0; static const int TRS[]={20,4}; c.tries=TRS[mc::choose(2)]; int pat=mc::choose(6); bool trainWalk=mc::choose(2); H("transformed train=%d test=%d sibs=%d threads=%d cw=%d centre=%d scale=%d target=%d batch=%d tries=%d data=%d",e.n[0],e.n[1],e.sibs,g_W,c.cw,c.cen,c.sca,t,c.bs,c.tries,pat); typedef Tf<T> F; F f(e.sibs); typename F::TD_stor_t st; absorbAll0(st,e); fill<T>(st,pat,e.n[0],e.n[1],e.xw); VV b0=rd(st.X(0)),b1=rd(st.X(1)); typedef nntl::transf_train_data<F> TD; TD td(f,st); e.im.preinit(1); e.im.init();
	auto all=[&](int s){ vec_len_t q=e.sibs; if(td.init4inference(e.im,q)!=EC::Success) mc::fail("init"); VV v; int nb=(int)td.walk_over_set(s,e.cd); for(int k=0;k<nb;k++){ td.next_subset(k,e.cd); okBias(td.batchX()); for(auto&x:rd(td.batchX())) v.push_back(x); } td.deinit4all(); return v; };
	VV o0=all(0),o1=all(1); typename nntl::_impl::td_norm<T,SR>::NormalizationSettings_t S; S.bColumnwise=c.cw; S.bCentralNormalize=c.cen; S.bScaleNormalize=c.sca; S.targetScale=c.ts; S.targetCentral=c.tc; S.batchSize=c.bs; S.maxTries=c.tries; S.bVerbose=false; bool r=td.template normalize_data<SR>(e.cd,S); mc::op(); VV n0=all(0),n1=all(1); judge(c,r,o0,n0,o1,r?n1:o1,(int)o0.size(),sizeof(T)==4?3e-5:1e-10); CK(rd(st.X(0))==b0&&rd(st.X(1))==b1,"stored data changed");
	if(trainWalk&&r){ vec_len_t mf=0,mb=0; bool mm; if(td.init4train(e.im,mf,mb,&mm)!=EC::Success) mc::fail("init"); g_rngI=[](ptrdiff_t lt){ return lt-1; }; e.cd.deinit(); e.cd.init(mf,mb); e.cd.set_mode_and_batch_size(true,mb); td.on_next_epoch(0,e.cd,-1); td.on_next_batch(0,e.cd); VV tb=rd(td.batchX()); CK(tb.size()==n0.size(),"batch"); std::vector<bool> us(n0.size()); for(auto&x:tb){ bool hit=false; for(size_t k=0;k<n0.size()&&!hit;k++) if(!us[k]&&n0[k]==x){ us[k]=true; hit=true; } CK(hit,"a training batch is not normalised like the walked set"); } td.deinit4all(); g_rngI=nullptr; }
	td.reset_normalization(); CK(all(0)==o0&&all(1)==o1,"reset_normalization did not restore the data"); mc::state(mc::hbytes(g_h.data(),g_h.size())); mc::sample("%s",g_h.c_str()); }
SCENARIO(transformed){ trf<double,double>(); } SCENARIO(transformed_float){ trf<float,float>(); } SCENARIO(transformed_mixed){ trf<float,double>(); }
