// Running out of memory (P22), second part: matrices, data sets, batches, normalisation.
#include "oom.hpp"
#include "tdx.hpp"
#include <cstdio>
#define _ftelli64 ftello
#define _fseeki64 fseeko
#define sscanf_s sscanf
#include <sys/mman.h>
#include <unistd.h>
#include "nntl/train_data/seq_data.h"
#include "nntl/weights_init/static.h"
#include "nntl/nnet_evaluator.h"
#define malloc(s) oom::raw(s)
#include "nntl/_supp/io/binfile.h"
#undef malloc
#include "nntl/_supp/io/jsonreader.h"
#define LIVE(l0) do{ long lv_=oom::mats-(l0); CK(lv_==0,"%ld allocations are leaked",lv_); }while(0)
// ---- matrices. op codes: 0 resize(2,3) 1 resize(3,2) 2 resize_as_dataset(4,1) 3 resize without biases (1,2) 4 clone of a (2,3)+bias source 5 clone without bias 6 clear 7 move out and in 8 resize like another
template<class M,class=void> struct Def{ static const bool v=false; }; template<class T> struct Def<math::smatrix_deform<T>,void>{ static const bool v=true; };
template<class T> static bool amount(math::smatrix<T>&,int){ return false; } template<class T> static bool amount(math::smatrix_deform<T>&m,int ne){ return m.resize(numel_cnt_t(ne)); }
template<class T> static bool cloneF(math::smatrix<T>&m,math::smatrix<T>&s){ return s.clone_to(m); } template<class T> static bool cloneF(math::smatrix_deform<T>&m,math::smatrix<T>&s){ return m.cloneFrom(s); }
template<class M> static void matrices(int depth){ typedef typename M::value_type T; g_h.clear(); bool em=mc::choose(2),row=mc::choose(2); H("%s of %d bytes%s%s:",Def<M>::v?"deformable":"matrix",(int)sizeof(T),em?" with biases":"",row?" batches in rows":""); long l0=oom::mats; { math::smatrix<T> src(3,2,true); for(int i=0;i<3;i++) for(int j=0;j<2;j++) src.set(i,j,T(i*10+j+2)); long l1=oom::mats; { M m; if(em) m.will_emulate_biases(); else m.dont_emulate_biases(); m.set_batchInRow(row); int er=0,ec=0; bool eb=em,erow=row; mc::shard(); bool raw=false; // what the matrix should be
	for(int d=0;d<depth;d++){ int nop=Def<M>::v?10:9; int o=mc::choose(nop+1); if(o==nop) break; bool fail=o!=6&&o!=7?mc::choose(2):false; if((o==0||o==1||o==2||o==8)&&raw){ /* a bare amount of memory has no shape */ } bool did=false; int r=0,c=0; bool b=eb,ro=erow; oom::fired=0; bool ok=true; { Arm a(fail?1:-1,true); switch(o){ case 0: r=2;c=3; ok=m.resize(2,3); break; case 1: r=3;c=2; ok=m.resize(3,2); break; case 2: r=ro?1:4;c=ro?4:1; ok=m.resize_as_dataset(4,1); break; case 3: r=1;c=2;b=false; ok=static_cast<math::smatrix<T>&>(m).resize(1,2,math::tag_noBias()); break; case 4: r=3;c=2;b=true;ro=false; ok=cloneF(m,src); break; case 5: r=3;c=2;b=false;ro=false; ok=src.clone_to_no_bias(m); break; case 6: m.clear(); r=c=0; ro=false; break; case 7: { M t(std::move(m)); r=er;c=ec; CK(m.empty()&&m.rows()==0&&m.cols()==0,"moved out of, but not empty"); m=std::move(t); did=true; break; } case 8: { ok=m.resize(math::smatrix_td::mtx_size_t(2,2)); r=2;c=2; break; } case 9: ok=amount(m,5); r=c=0; b=false; ro=false; break; } }
		mc::op(); H(" op%d%s",o,fail?"!":""); bool failed=oom::fired>0; if(failed) CK(!ok,"reported success, though there was no memory"); else CK(ok,"reported failure, though nothing failed"); if(failed){ CK(m.empty(),"failed, but is not empty"); CK(m.data()==nullptr,"failed, but has data"); er=ec=-1; raw=false; if(o==3||o==4||o==5) { eb=false; m.dont_emulate_biases(); } erow=m.bBatchInRow(); mc::state(mc::hbytes(g_h.data(),g_h.size())); continue; }
		if(o==9){ CK(!m.empty(),"empty after a successful resize"); raw=true; eb=false; erow=false; er=ec=0; for(int i=0;i<5;i++) m.data()[i]=T(i); continue; } if(o==6) { CK(m.empty()&&m.rows()==0&&m.cols()==0&&m.numel()==0,"not empty after clear()"); er=ec=0; raw=false; erow=false; CK(m.bBatchInRow()==false,"layout after clear()"); continue; }
		if(o==7){ if(er<=0&&!raw){ CK(m.empty(),"moved nothing, but not empty"); continue; } if(raw){ CK(!m.empty(),"lost by a move"); continue; } } else { er=r;ec=c;eb=b;erow=ro; raw=false; } (void)did;
		CK(!m.empty()&&m.data(),"empty after success"); CK(m.emulatesBiases()==eb&&m.bBatchInRow()==erow,"biases %d layout %d",(int)m.emulatesBiases(),(int)m.bBatchInRow()); int R=er+(eb&&erow),C=ec+(eb&&!erow); CK((int)m.rows()==R&&(int)m.cols()==C,"size is %d*%d, should be %d*%d",(int)m.rows(),(int)m.cols(),R,C); CK(!m.isAllocationFailed(),"says that allocation failed");
		if(o==4||o==5) for(int i=0;i<3;i++) for(int j=0;j<2+(o==4);j++) CK(m.get(i,j)==src.get(i,j),"clone differs at %d,%d",i,j); if(eb) for(int i=0;i<(erow?C:R);i++) CK((erow?m.get(R-1,i):m.get(i,C-1))==T(1),"bias %d is %g",i,(double)(erow?m.get(R-1,i):m.get(i,C-1))); for(int i=0;i<er;i++) for(int j=0;j<ec;j++) m.set(i,j,T(i+j)); mc::state(mc::hbytes(g_h.data(),g_h.size())); } }
	CK(oom::mats==l1,"%ld allocations are leaked",oom::mats-l1); } mc::sample("%s",g_h.c_str()); }
SCENARIO(matrix){ matrices<math::smatrix<double>>(mc::thorough()?5:3); } SCENARIO(matrix_float){ matrices<math::smatrix<float>>(3); } SCENARIO(deformable){ matrices<math::smatrix_deform<double>>(mc::thorough()?5:3); } SCENARIO(deformable_float){ matrices<math::smatrix_deform<float>>(3); }
// a matrix that could not be constructed says so
template<class M> static void ctor(int how,bool em,bool row,bool fail){ Arm a(fail?1:-1,true); auto ck=[&](M&m){ if(fail){ CK(oom::fired>0,"nothing failed"); CK(m.empty()&&m.isAllocationFailed(),"the failure is not visible"); oom::armed=false; CK(m.resize(2,3),"can't be resized afterwards"); } CK(!m.empty()&&!m.isAllocationFailed(),"empty"); CK((int)m.rows()==2+(em&&row)&&(int)m.cols()==3+(em&&!row),"size %d*%d",(int)m.rows(),(int)m.cols()); for(int i=0;em&&i<(row?3:2);i++) CK((row?m.get(2,i):m.get(i,3))==1,"bias"); }; if(how==0){ M m(2,3,em,row); ck(m); } else if(how==1){ math::smatrix<double> m(row,row?3:2,row?2:3,em); M q(std::move(m)); ck(q); } else { math::smatrix<double> m(math::smatrix_td::mtx_size_t(2,3),em,row); M q(std::move(m)); ck(q); } }
SCENARIO(constructors){ g_h.clear(); int how=mc::choose(3); bool em=mc::choose(2),row=mc::choose(2),fail=mc::choose(2),df=mc::choose(2); mc::shard(); H("constructor %d biases=%d rows=%d%s deform=%d",how,(int)em,(int)row,fail?" fails":"",(int)df); long l0=oom::mats; if(df) ctor<math::smatrix_deform<double>>(how,em,row,fail); else ctor<math::smatrix<double>>(how,em,row,fail); mc::op(); LIVE(l0); mc::state(mc::hbytes(g_h.data(),g_h.size())); mc::sample("%s",g_h.c_str()); }
// ---- data: what an object hands out over one epoch and over walks of both sets
typedef std::vector<double> VD;
template<class TD> static EC initTd(TD&td,Env<double>&e,bool train,int mf,int mb,vec_len_t&f,vec_len_t&b){ f=mf; b=mb; bool mini; return train?td.init4train(e.im,f,b,&mini):td.init4inference(e.im,f); }
template<class M> static void take(VD&o,const M&m){ for(int i=0;i<(int)m.batch_size();i++) for(int j=0;j<(int)m.sample_size();j++) o.push_back(at(m,i,j)); }
template<class TD> static void use(TD&td,Env<double>&e,bool train,vec_len_t f,vec_len_t b,VD&o){ e.cd.deinit(); e.cd.init(f,train?b:f); if(train){ e.cd.set_mode_and_batch_size(true,b); g_rngI=[](ptrdiff_t lt){ return (ptrdiff_t)(lt-1); }; for(int ep=0;ep<2;ep++){ int nb=(int)td.on_next_epoch(ep,e.cd,b); for(int k=0;k<nb;k++){ td.on_next_batch(k,e.cd); take(o,td.batchX()); take(o,td.batchY()); } } } e.cd.set_mode_and_batch_size(false,f); for(int s=0;s<2;s++){ int nb=(int)td.walk_over_set(s,e.cd); for(int k=0;k<nb;k++){ td.next_subset(k,e.cd); take(o,td.batchX()); take(o,td.batchY()); } } td.deinit4all(); }
template<class TD> static void init1(TD&td,Env<double>&e,int mf,int mb,bool prev){ bool train=mc::choose(2),rest=mc::choose(2); vec_len_t f,b; VD ref,got; H(" %s(%d,%d)%s",train?"init4train":"init4inference",mf,mb,prev?" after another one":""); auto once=[&](bool t,VD&o){ if(initTd(td,e,t,mf,mb,f,b)!=EC::Success) mc::fail("init failed | %s",g_h.c_str()); use(td,e,t,f,b,o); }; once(train,ref); if(prev){ VD x; once(!train,x); } long n; { Arm a(-1,false); EC q=initTd(td,e,train,mf,mb,f,b); n=oom::n; if(q!=EC::Success) mc::fail("init failed | %s",g_h.c_str()); } td.deinit4all(); if(!n){ mc::state(mc::hbytes(g_h.data(),g_h.size())); mc::sample("%s needs no memory",g_h.c_str()); return; } long at=1+mc::choose((int)n); H(" allocation %ld of %ld%s",at,n,rest?"..":""); EC q; { Arm a(at,rest); q=initTd(td,e,train,mf,mb,f,b); } mc::op(); CK(oom::fired>0,"nothing failed"); CK(q!=EC::Success,"success without memory"); { vec_len_t z=0,z1=0; bool m; CK(!td.is_initialized4inference(z)&&!td.is_initialized4train(z,z1,m),"failed, but says it is initialised"); } if(mc::choose(2)) td.deinit4all(); once(train,got); CK(got==ref,"hands out other data afterwards"); got.clear(); once(!train,got); mc::state(mc::hbytes(g_h.data(),g_h.size())); mc::sample("%s -> %d",g_h.c_str(),(int)q); mc::outcome((uint64_t)q); }
template<class TD> static void dims(Env<double>&e){ e.n[0]=2+mc::choose(2); e.n[1]=1+mc::choose(2); e.xw=2; e.yw=1; e.lx=mc::choose(2); e.ly=mc::choose(2); g_W=1+mc::choose(2); g_order=0; }
template<class ST> static void put(ST&st,Env<double>&e){ if(!st.absorb(mkX<double>(0,e.n[0],e.xw,e.lx),mkX<double>(0,e.n[0],e.yw,e.ly,false),mkX<double>(1,e.n[1],e.xw,e.lx),mkX<double>(1,e.n[1],e.yw,e.ly,false))) mc::fail("absorb"); }
SCENARIO(inmem){ g_h.clear(); long l0=oom::mats; { Env<double> e; dims<int>(e); int mf=mc::choose(3),mb=mc::choose(3); bool prev=mc::choose(2); mc::shard(); H("inmem %d+%d rows=%d%d",e.n[0],e.n[1],(int)e.lx,(int)e.ly); if(mf>0&&(mb==0||mb>mf)) { if(mb>mf){ mc::sample("skip"); mc::state(1); return; } mb=1; } nntl::inmem_train_data<double> td; put(td,e); e.im.preinit(1); e.im.init(); init1(td,e,mf,mb,prev); g_rngI=nullptr; } (void)l0; }
SCENARIO(transformed){ g_h.clear(); Env<double> e; dims<int>(e); e.lx=e.ly=false; e.sibs=1+mc::choose(2); bool prev=mc::choose(2); mc::shard(); H("transformed %d+%d siblings %d",e.n[0],e.n[1],e.sibs); typedef Tf<double> F; F f(e.sibs); F::TD_stor_t st; put(st,e); nntl::transf_train_data<F> td(f,st); e.im.preinit(1); e.im.init(); init1(td,e,0,0,prev); g_rngI=nullptr; }
// a duplicate is complete or the target stays as it was
SCENARIO(duplicate){ g_h.clear(); long l0=oom::mats; { Env<double> e; dims<int>(e); int at=1+mc::choose(4); bool rest=mc::choose(2),full=mc::choose(2); mc::shard(); H("duplicate %d+%d to %s, allocation %d%s fails",e.n[0],e.n[1],full?"a full one":"an empty one",at,rest?"..":""); long l1=oom::mats; { nntl::inmem_train_data_stor<double> a,b,b0; put(a,e); Env<double> e2; e2.n[0]=e2.n[1]=1; e2.xw=3; e2.yw=2; e2.lx=e2.ly=false; if(full){ put(b,e2); put(b0,e2); } bool r; { Arm q(at,rest); r=a.dupe(b); } mc::op(); CK(oom::fired>0,"nothing failed"); CK(!r,"success without memory"); if(full) CK(b==b0,"the target has changed"); else CK(b.empty(),"the target is not empty"); CK(a.dupe(b),"can't be duplicated afterwards"); CK(a==b,"the duplicate differs"); } CK(oom::mats==l1,"%ld allocations are leaked",oom::mats-l1); mc::state(mc::hbytes(g_h.data(),g_h.size())); mc::sample("%s",g_h.c_str()); } (void)l0; }
// ---- the math interface
SCENARIO(math_init){ g_h.clear(); int sz=1+mc::choose(mc::thorough()?40:12); g_W=1+mc::choose(4); bool before=mc::choose(2); mc::shard(); H("iMath of %d numbers, %d threads%s",sz,g_W,before?", was ready":""); HI<double>::iMath_t im; if(before){ im.preinit(1); CK(im.init(),"init"); im.deinit(); } im.preinit(sz); bool r; { Arm a(1,true,true); r=im.init(); } mc::op(); CK(oom::fired>0,"nothing failed"); CK(!r,"success without memory"); CK(im.init(),"can't be initialised afterwards"); double*p=im._istor_alloc(sz); for(int i=0;i<sz;i++) p[i]=i; im._istor_free(p,sz); mc::state(mc::hbytes(g_h.data(),g_h.size())); mc::sample("%s",g_h.c_str()); }
// ---- file readers
typedef std::string By; typedef nntl_supp::binfile BF; typedef nntl_supp::jsonreader JR;
static int mfd(){ static int f=memfd_create("oom",0); return f; } static const char* putF(const By&b){ int f=mfd(); if(ftruncate(f,0)||(b.size()&&pwrite(f,b.data(),b.size(),0)!=(ssize_t)b.size())) mc::fail("harness: cannot write the memory file"); static char n[40]; snprintf(n,40,"/proc/self/fd/%d",f); return n; }
static int openFds(){ int f=dup(mfd()); close(f); return f; }
static void le(By&b,uint64_t v,int n){ for(int i=0;i<n;i++) b+=(char)(v>>(8*i)); } static By hdrF(int fields,int classes){ By b; le(b,0x6c746e6e,4); le(b,0,2); le(b,fields,2); le(b,classes,2); return b; }
static By fld(const char*nm,int r,int c,int type,int f){ By b; le(b,r,4); le(b,c,4); By n(nm); n.resize(15); b+=n; b+=(char)type; for(int k=0;k<r*c;k++){ double v=f*8+k*0.25-3; if(type==1){ float q=(float)v; b.append((char*)&q,4); } else b.append((char*)&v,8); } return b; }
template<class T> struct SD: nntl::seq_data<T>{ auto& stor(){ return this->m_seqStor; } };
template<class M> static void dumpM(VD&o,const M&m){ o.push_back(m.rows()); o.push_back(m.cols()); for(numel_cnt_t i=0;i<m.numel();i++) o.push_back(m.data()[i]); }
template<class T> static int readF(int kind,const char*p,VD&o){ BF bf; JR jr; int ec; if(kind==0){ math::smatrix<T> m; ec=(int)bf.read(p,m); CK(ec==(int)bf.get_last_error(),"last error"); if(!ec) dumpM(o,m); } else if(kind==1){ nntl::inmem_train_data_stor<T,T> td; ec=(int)bf.read(p,td); if(!ec){ for(int s=0;s<2;s++){ dumpM(o,td.X(s)); dumpM(o,td.Y(s)); } } else CK(td.empty(),"data out of a failed read"); } else if(kind==2){ SD<T> s; ec=(int)bf.read(p,static_cast<nntl::seq_data<T>&>(s)); if(!ec) for(auto&v:s.stor()) for(auto&m:v) dumpM(o,m); } else if(kind==3){ math::smatrix<T> m; ec=(int)jr.read(p,m); CK(ec==(int)jr.get_last_error(),"last error"); if(!ec) dumpM(o,m); } else { nntl::inmem_train_data_stor<T,T> td; ec=(int)jr.read(p,td); if(!ec){ for(int s=0;s<2;s++){ dumpM(o,td.X(s)); dumpM(o,td.Y(s)); } } else CK(td.empty(),"data out of a failed read"); } return ec; }
template<class T> static void readers(){ g_h.clear(); int kind=mc::choose(5),t=mc::choose(2); bool rest=mc::choose(2); mc::shard(); static const char*NM[]={"train_x","train_y","test_x","test_y"}; By b; if(kind==0) b=hdrF(1,0)+fld("any",2,3,t,0); else if(kind==1){ b=hdrF(4,0); static const int R[]={2,2,1,1},C[]={2,1,2,1}; for(int k=0;k<4;k++) b+=fld(NM[k],R[k],C[k],((t?5:10)>>k)&1,k); } else if(kind==2){ b=hdrF(5,2); le(b,1,2); le(b,2,2); b+=fld("c2",1,2,t,0)+fld("c1",2,1,t^1,1)+fld("c2",2,2,t,2); } else if(kind==3) b=t?"{\"train_x\":[1,2,3]}":"{\"train_x\":[[1,2],[3,4.5]]}"; else b=t?"{\"train_x\":[[1,2]],\"train_y\":[1,2],\"test_x\":[[3]],\"test_y\":[7]}":"{\"train_x\":[[1,3],[2,5]],\"train_y\":[[1,2]],\"test_x\":[[3],[4]],\"test_y\":[[7]]}";
	const char*p=putF(b); H("reader %d type %d of %d bytes",kind,t,(int)sizeof(T)); VD ref,got; long n; { Arm a(-1,false); int ec=readF<T>(kind,p,ref); n=oom::n; CK(ec==0,"reading failed: %d",ec); } CK(n>0,"needs no memory"); long at=1+mc::choose((int)n); H(" allocation %ld of %ld%s",at,n,rest?"..":""); long l0=oom::mats; int f0=openFds(); int ec; { Arm a(at,rest); ec=readF<T>(kind,p,got); } mc::op(); CK(oom::fired>0,"nothing failed"); CK(ec!=0,"success without memory"); CK(openFds()==f0,"a file is left open"); LIVE(l0); got.clear(); CK(readF<T>(kind,p,got)==0&&got==ref,"can't be read afterwards"); mc::state(mc::hbytes(g_h.data(),g_h.size())); mc::outcome(mc::hmix(kind,ec)); mc::sample("%s -> %d",g_h.c_str(),ec); }
SCENARIO(read_double){ readers<double>(); } SCENARIO(read_float){ readers<float>(); }
// ---- sparse weight initialisation, the evaluator with cached classes
SCENARIO(sparse_weights){ g_h.clear(); int r=1+mc::choose(3),c=3+mc::choose(3); bool rest=mc::choose(2),tanh_=mc::choose(2); mc::shard(); H("sparse weights %d*%d",r,c); typedef HI<double> I; I::iMath_t im; im.preinit(64); im.init(); I::iRng_t rg; rg.init_ithreads(im.ithreads()); math::smatrix<double> w(r,c+1),w0(r,c+1); auto go=[&](math::smatrix<double>&m){ g_rngI=[](ptrdiff_t lt){ return (ptrdiff_t)((lt*5+2)%7)%lt; }; int k=0; (void)k; return tanh_?nntl::weights_init::Martens_SI_tanh<2>::make_weights(m,rg,im):nntl::weights_init::Martens_SI_sigm<2>::make_weights(m,rg,im); }; long n; { Arm a(-1,false); bool q=go(w0); n=oom::n; CK(q,"failed"); } CK(n>0,"needs no memory"); long at=1+mc::choose((int)n); long l0=oom::mats; bool q; { Arm a(at,rest); q=go(w); } mc::op(); CK(oom::fired>0&&!q,"success without memory"); LIVE(l0); CK(go(w),"fails afterwards"); for(int k=0;k<r*(c+1);k++) CK((w.data()[k]!=0)==(w0.data()[k]!=0),"other weights afterwards"); g_rngI=nullptr; mc::state(mc::hmix(mc::hbytes(g_h.data(),g_h.size()),at*4+rest*2+tanh_)); mc::sample("%s",g_h.c_str()); }
SCENARIO(evaluator){ g_h.clear(); Env<double> e; e.n[0]=2+mc::choose(3); e.n[1]=1+mc::choose(2); e.xw=1; e.yw=2+mc::choose(3); e.lx=e.ly=false; g_W=1+mc::choose(3); bool fresh=mc::choose(2); mc::shard(); H("evaluator %d+%d classes %d threads %d",e.n[0],e.n[1],e.yw,g_W); nntl::inmem_train_data<double> td; put(td,e); e.im.preinit(1); if(!e.im.init()) mc::fail("init"); if(fresh) e.im.deinit(); vec_len_t f=0,b=0; bool mini; if(td.init4train(e.im,f,b,&mini)!=EC::Success) mc::fail("init"); e.cd.init(f,b); e.cd.set_outBatchSizes(nntl::BatchSizes(f,b)); e.cd.set_mode_and_batch_size(false,f); nntl::eval_classification_one_hot_cached<double> ev; bool q; long n; { Arm a(1,true,true); q=ev.init(td,e.cd); n=oom::n; } mc::op(); if(n){ CK(!q,"success without memory"); } if(q) ev.deinit(); CK(ev.init(td,e.cd),"fails afterwards"); ev.deinit(); td.deinit4all(); mc::state(mc::hbytes(g_h.data(),g_h.size())); mc::outcome(n); mc::sample("%s: %ld",g_h.c_str(),n); }
