// An inspector that records everything it is told (P20).
#pragma once
#include <vector>
#include <functional>
#include <string>
#include "mathx.hpp"
#include "nntl/utils.h"
#include "nntl/interfaces.h"
namespace rec{
	typedef double R; typedef math::smatrix<R> M;
	struct Mx{ int r=0,c=0; std::vector<double> a; double operator()(int i,int j)const{ return a[(size_t)j*r+i]; } bool operator==(const Mx&o)const{ return r==o.r&&c==o.c&&(a.empty()||!memcmp(a.data(),o.a.data(),a.size()*8)); } };
	template<class T> inline Mx mx(const math::smatrix<T>&m,bool nb=true){ Mx q; q.r=m.rows(); q.c=nb?m.cols_no_bias():m.cols(); q.a.resize((size_t)q.r*q.c); for(int j=0;j<q.c;j++) for(int i=0;i<q.r;i++) q.a[(size_t)j*q.r+i]=(double)m.get(i,j); return q; }
	enum K{ NET,LAYER,FB,FE,FW,FX,FZ,FA,PD,QD,BB,BE,BF,CD1,CD2,BO,BP,BD,BZ,BC,BW,GB,GE,GU,LAD,OTHER,EB,EE,TB,TE,CB,CE };
	struct Ev{ K k; int l=-1; Mx a,b,c; double s=0,s2=0; bool tr=false; std::string n; };
	static std::vector<Ev> E; static bool on=true;
	inline void ev(Ev&&e){ if(on) E.push_back(std::move(e)); }
	struct Rec: inspector::_impl::_base<R>{
		void train_epochBegin(const numel_cnt_t i,const numel_cnt_t n)const noexcept{ Ev e{EB}; e.s=(double)i; e.s2=(double)n; ev(std::move(e)); } void train_epochEnd()const noexcept{ ev({EE}); } void train_batchBegin(const numel_cnt_t i)const noexcept{ Ev e{TB}; e.s=(double)i; ev(std::move(e)); } void train_batchEnd()const noexcept{ ev({TE}); } void train_preCalcError(const data_set_id_t i)const noexcept{ Ev e{CB}; e.s=(double)i; ev(std::move(e)); } void train_postCalcError()const noexcept{ ev({CE}); }
		void init_nnet(const size_t n,const numel_cnt_t ep)const noexcept{ Ev e{NET}; e.l=(int)n; e.s=(double)ep; ev(std::move(e)); }
		template<class S> void init_layer(const layer_index_t l,S&&n,const layer_type_id_t t)const noexcept{ Ev e{LAYER}; e.l=(int)l; e.n=std::string(n); e.s=(double)t; ev(std::move(e)); }
		void fprop_begin(const layer_index_t l,const M&a,const bool tr)const noexcept{ Ev e{FB,(int)l,mx(a)}; e.tr=tr; e.s=a.cols(); ev(std::move(e)); } void fprop_end(const M&a)const noexcept{ Ev e{FE,-1,mx(a)}; e.s=a.cols(); ev(std::move(e)); }
		void fprop_makePreActivations(const M&W,const M&p)const noexcept{ ev({FW,-1,mx(W,false),mx(p)}); } void fprop_makePreActivations(const M&p)const noexcept{ ev({FX,-1,mx(p)}); }
		void fprop_preactivations(const M&Z)const noexcept{ ev({FZ,-1,mx(Z)}); } void fprop_activations(const M&A)const noexcept{ ev({FA,-1,mx(A)}); }
		void fprop_preDropout(const M&A,const R p,const M&m)const noexcept{ Ev e{PD,-1,mx(A),mx(m)}; e.s=p; ev(std::move(e)); } void fprop_postDropout(const M&A,const M&m)const noexcept{ ev({QD,-1,mx(A),mx(m)}); }
		template<class T> void bprop_begin(const layer_index_t l,const math::smatrix<T>&d)const noexcept{ ev({BB,(int)l,mx(d)}); } void bprop_end(const M&d)const noexcept{ ev({BE,-1,mx(d)}); } void bprop_finaldLdA(const M&d)const noexcept{ ev({BF,-1,mx(d)}); }
		void bprop_preCancelDropout(const M&d,const M&A,const R p)const noexcept{ Ev e{CD1,-1,mx(d),mx(A)}; e.s=p; ev(std::move(e)); } void bprop_postCancelDropout(const M&d,const M&A)const noexcept{ ev({CD2,-1,mx(d),mx(A)}); }
		template<class T> void bprop_predLdZOut(const M&A,const math::smatrix<T>&y)const noexcept{ ev({BO,-1,mx(A),mx(y)}); } void bprop_predAdZ(const M&A)const noexcept{ ev({BP,-1,mx(A)}); } void bprop_dAdZ(const M&d)const noexcept{ ev({BD,-1,mx(d)}); }
		void bprop_dLdZ(const M&d)const noexcept{ ev({BZ,-1,mx(d)}); } void bprop_postClampdLdZ(const M&d,const R&u,const R&l)const noexcept{ Ev e{BC,-1,mx(d)}; e.s=u; e.s2=l; ev(std::move(e)); } void bprop_dLdW(const M&z,const M&p,const M&w)const noexcept{ ev({BW,-1,mx(z),mx(p),mx(w,false)}); }
		void apply_grad_begin(const M&W,const M&d)const noexcept{ ev({GB,-1,mx(W,false),mx(d,false)}); } void apply_grad_end(const M&W)const noexcept{ ev({GE,-1,mx(W,false)}); } void apply_grad_update(const M&W,const M&U)const noexcept{ ev({GU,-1,mx(W,false),mx(U,false)}); }
		void dLossAddendumScaled(const M&d,const M&a,const R&s,const char*n)const noexcept{ Ev e{LAD,-1,mx(d),mx(a)}; e.s=s; e.n=n; ev(std::move(e)); }
		void fprop_preNesterovMomentum(const M&,const R,const M&)const noexcept{ ev({OTHER}); } void apply_grad_preNesterovMomentum(const M&,const M&)const noexcept{ ev({OTHER}); } void apply_grad_preILR(const M&,const M&,const M&)const noexcept{ ev({OTHER}); } void apply_grad_preLRDropout(const M&,const R,const M&)const noexcept{ ev({OTHER}); } void fprop_preLRDropout4NesterovMomentum(const M&,const R,const M&)const noexcept{ ev({OTHER}); }
	};
	struct LI{ int idx,parent; std::string name; unsigned type; int kind,neurons,inc; bool bprop,trivial,ident; int drop; std::vector<int> ch; std::function<Mx()> act,W; };
	template<class L,class=void> struct HasW: std::false_type{}; template<class L> struct HasW<L,std::void_t<decltype(std::declval<const L&>().get_weights())>>: std::true_type{};
	template<class L,class=void> struct HasD: std::false_type{}; template<class L> struct HasD<L,std::void_t<decltype(std::declval<const L&>().bDropout())>>: std::true_type{};
	template<class L> void walk(L&l,int parent,std::vector<LI>&v);
}
