#pragma once
// Training data: batches, epochs, walks over sets, storage life cycle.
#include <set>
#include "netx.hpp"
#include "nntl/nntl.h"
#include "nntl/train_data/transf_train_data.h"
typedef nntl::_impl::common_nn_data<HI<double>> CD;
typedef nntl::_nnet_errs::ErrorCode EC;
static const int TR=0,TE=1;
static std::string g_h; static void H(const char*f,...){ char b[200]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); g_h+=b; }
#define CK(c,f,...) CHECK(c,f " | %s",##__VA_ARGS__,g_h.c_str())
static double xv(int s,int i,int j){ return s*100+i*10+j+1; } static double yv(int s,int i,int j){ return -(s*100+i*10+j+1.5); }
template<class T> static math::smatrix_deform<T> mkX(int s,int n,int w,bool row,bool bias=true){ math::smatrix_deform<T> m; if(bias) m.will_emulate_biases(); else m.dont_emulate_biases(); m.set_batchInRow(row); if(!m.resize_as_dataset(n,w)) mc::fail("alloc"); for(int i=0;i<n;i++) for(int j=0;j<w;j++){ double v=bias?xv(s,i,j):yv(s,i,j); if(row) m.set(j,i,(T)v); else m.set(i,j,(T)v); } return m; }
template<class M> static double at(const M&m,int i,int j){ return m.bBatchInRow()?(double)m.get(j,i):(double)m.get(i,j); }
template<class M> static void okBias(const M&m){ CK(m.emulatesBiases(),"batchX without biases"); for(int i=0;i<(int)m.batch_size();i++) CK(at(m,i,(int)m.sample_size())==1,"bias of batch row %d is %g",i,at(m,i,(int)m.sample_size())); }
struct Perm{ std::vector<int> v; bool free; int rot; };
// which permutation the shuffle produces: all of them for small sets, two otherwise
static void rngMode(int n){ bool all=n<=3; if(all) g_rngI=[](ptrdiff_t lt){ return (ptrdiff_t)mc::choose((int)lt); }; else { int k=mc::choose(3); g_rngI=[k](ptrdiff_t lt){ return k==0?(ptrdiff_t)0:k==1?(ptrdiff_t)(lt-1):(ptrdiff_t)((lt*5+2)%7)%lt; }; } }
// A transformer making `sibs` samples of each base sample
template<class T> struct Tf: nntl::_i_td_transformer<T,T>{ typedef nntl::_i_td_transformer<T,T> B; typedef typename B::TD_stor_t TD_stor_t; typedef typename B::const_TD_stor_t const_TD_stor_t; typedef typename B::x_mtx_t x_mtx_t; typedef typename B::y_mtx_t y_mtx_t; int sibs; int cap=0; math::smatrix_deform<T> bx,by; bool failInit=false; Tf(int s):sibs(s){}
	vec_len_t samplesInBaseSample()const noexcept{ return sibs; } vec_len_t xWidth(const_TD_stor_t&t)const noexcept{ return t.X(0).sample_size(); } vec_len_t yWidth(const_TD_stor_t&t)const noexcept{ return t.Y(0).sample_size(); } numel_cnt_t base_dataset_samples_count(const_TD_stor_t&t,int d)const noexcept{ return t.X(d).batch_size(); }
	void deinit()noexcept{ bx.clear(); by.clear(); cap=0; } template<class M> bool init(M&,const_TD_stor_t&t,vec_len_t bbs)noexcept{ CK(bbs>0,"transformer initialised for %d base samples",(int)bbs); if(failInit) return false; cap=bbs; bx.will_emulate_biases(); by.dont_emulate_biases(); return bx.resize_as_dataset(bbs*sibs,xWidth(t))&&by.resize_as_dataset(bbs*sibs,yWidth(t)); }
	void shape(int bbs){ CK(bbs>0&&bbs<=cap,"transformer asked for %d base samples, initialised for %d",bbs,cap); bx.deform_batch_size_with_biases(bbs*sibs); by.deform_batch_size(bbs*sibs); }
	template<class C> void next_epoch(const_TD_stor_t&,const numel_cnt_t,const C&,const vec_len_t bbs,x_mtx_t**px,y_mtx_t**py)noexcept{ shape(bbs); *px=&bx; *py=&by; }
	void put(const_TD_stor_t&t,int d,int k,int base){ for(int p=0;p<sibs;p++){ for(int j=0;j<(int)bx.sample_size();j++) bx.set(k*sibs+p,j,T(at(t.X(d),base,j)+p*0.25)); for(int j=0;j<(int)by.sample_size();j++) by.set(k*sibs+p,j,T(at(t.Y(d),base,j)-p*0.25)); } }
	template<class C> void next_batch(const_TD_stor_t&t,const numel_cnt_t,const C&,const vec_len_t*ix,const vec_len_t bbs)noexcept{ shape(bbs); for(int k=0;k<(int)bbs;k++) put(t,TR,k,ix[k]); }
	template<class C> void walk(const_TD_stor_t&,const int,const C&,const vec_len_t bbs,const unsigned ex,x_mtx_t**px,y_mtx_t**py)noexcept{ shape(bbs); *px=ex==1?nullptr:&bx; *py=ex==2?nullptr:&by; }
	template<class C> void walk_next(const_TD_stor_t&t,const int d,const numel_cnt_t,const C&,const vec_len_t bbs,const vec_len_t ofs,const unsigned)noexcept{ shape(bbs); for(int k=0;k<(int)bbs;k++) put(t,d,k,ofs+k); } };
template<class T> struct Env{ int n[2],xw,yw; bool lx,ly; int sibs=1; typename HI<T>::iMath_t im; typename HI<T>::iRng_t rg; typename HI<T>::iInspect_t ii; bool nl=false; nntl::_impl::common_nn_data<HI<T>> cd{im,rg,ii,nl}; };
template<class ST,class T> static void absorbAll0(ST&st,Env<T>&e){ if(!st.absorb(mkX<T>(0,e.n[0],e.xw,false),mkX<T>(0,e.n[0],e.yw,false,false),mkX<T>(1,e.n[1],e.xw,false),mkX<T>(1,e.n[1],e.yw,false,false))) mc::fail("absorb"); }
