BUGS=[]
def B(id,prop,edits,needs,what,demo,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,what=what,demo=demo,**k))
TAIL=r'''
#define REQ(c) do{ if(!(c)){ printf("FAILED %s line %d\n",#c,__LINE__); fflush(stdout); _exit(1);} }while(0)
'''
HEAD='#include "nn.hpp"\n#include <unistd.h>\n'+TAIL
B('b01_pool_ack','P01',[('nntl/interface/threads/workers.h','''				thrdRange.cnt(0);
				m_workingCnt--;
				m_orderDone.notify_one();
				Sync_t::unlockShared(m_mutex);
''','''				m_workingCnt--;
				m_orderDone.notify_one();
				Sync_t::unlockShared(m_mutex);
				thrdRange.cnt(0);
''')],'a worker that is delayed between acknowledging a job and clearing its range while the caller already submits the next job',
'the worker erases the range of the next job: pieces of it are never executed and the caller waits forever',HEAD+r'''
#include "nntl/interface/threads/workers.h"
using namespace nntl;
struct S : threads::std_sync_primitives { template<class M> static void unlockShared(M& m){ threads::std_sync_primitives::unlockShared(m); usleep(3000); } };
int main(){ alarm(60); typedef threads::Workers<float,ptrdiff_t,S> W; W* w=new W(); std::vector<int> v(64);
 for(int k=0;k<20;k++){ w->run([&v](const W::par_range_t& r){ for(ptrdiff_t i=r.offset();i<r.offset()+r.cnt();i++) v[i]++; },(ptrdiff_t)v.size()); for(int x:v) REQ(x==k+1); }
 printf("ok\n"); _exit(0); }
''')
B('b02_bg_delete','P02',[('nntl/interface/threads/bgworkers.h','''		self_t& delete_tasks()noexcept {
			disperse_locker_t d(m_mutexTasks, m_bGo2Waiting);
			m_tasks.clear();
''','''		self_t& delete_tasks()noexcept {
			if (m_tasks.empty()) return *this;
			TaskSet_t noTasks;
			{
				disperse_locker_t d(m_mutexTasks, m_bGo2Waiting);
				noTasks.reserve(m_tasks.capacity());
			}
			m_tasks.swap(noTasks);
''')],'a background thread inside its task (or between two tasks) at the moment of delete_tasks()',
'delete_tasks() may return while a background thread still executes a deleted task (the task list is replaced outside of the lock)',HEAD+r'''
#include "nntl/interface/threads/bgworkers.h"
using namespace nntl;
struct SM : threads::std_sync_primitives::shared_mutex_t { void unlock(){ threads::std_sync_primitives::shared_mutex_t::unlock(); usleep(8000); } };
struct S : threads::std_sync_primitives { typedef SM shared_mutex_t; };
int main(){ alarm(60); typedef threads::BgWorkers<S> W; 
 for(int k=0;k<10;k++){ W* w=new W(1,threads::PriorityClass::threads_priority_no_change); std::atomic<int> inside{0},calls{0}; 
  auto f=[&](const thread_id_t)noexcept->bool{ inside=1; calls++; usleep(20000); inside=0; return false; }; 
  w->set_task_wait_timeout(std::chrono::milliseconds(1)); w->add_task(f); while(calls<1) usleep(700); 
  w->delete_tasks(); int c=calls; REQ(!inside); usleep(40000); REQ(calls==c); delete w; }
 printf("ok\n"); return 0; }
''')
B('b03_ring_end','P03',[('nntl/utils/data_buffer.h','''			if (m_curIdx >= m_total) {
				m_curIdx = 0;
				m_afterLastValidIdx = (m_afterLastValidIdx == m_total ? 0 : m_afterLastValidIdx);
				m_afterLastClaimedIdx''','''			if (m_curIdx >= m_total) {
				m_curIdx = 0;
				m_afterLastClaimedIdx''')],'a consumer that takes everything up to the very end of the buffer while the valid zone ends exactly there',
'an emptied buffer is considered full again and hands out stale values a second time',HEAD+r'''
#include "nntl/interface/threads/_sync_primitives.h"
#include "nntl/utils/data_buffer.h"
using namespace nntl;
int main(){ float mem[4]={0}; utils::DataBuffer<float,void> b(mem,4); float d[4]={1,2,3,4}; size_t n=b._as_should_work(4); REQ(n==4); b._as_done(d,4);
 auto r=b.acquire_data(2); REQ(r.acquired()); b.release_data(r); r=b.acquire_data(2); REQ(r.acquired()&&r.ptr1[0]==3); b.release_data(r);
 r=b.acquire_data(1); REQ(!r.acquired()); printf("ok\n"); return 0; }
''')
B('b04_mtx_clone','P04',[('nntl/interface/math/smatrix.h','''				m_bHoleyBiases = rhs.m_bHoleyBiases;
				m_bBatchInRow = rhs.m_bBatchInRow;
			}
			return *this;
		}
		
		//////////////////////////////////////////////////////////////////////////
		//!! copy''','''				m_bHoleyBiases = rhs.m_bHoleyBiases && m_bHoleyBiases;
				m_bBatchInRow = rhs.m_bBatchInRow;
			}
			return *this;
		}
		
		//////////////////////////////////////////////////////////////////////////
		//!! copy''')],'move-assigning a matrix with holey biases over one whose biases are intact',
'the moved-to matrix claims intact biases although its bias column has holes',HEAD+r'''
#include "nntl/interface/math/smatrix.h"
using namespace nntl;
int main(){ typedef math::smatrix<float> M; M a(3,2,true); a.zeros(); float bb[3]={1,0,1}; a.copy_biases_from(bb,2); REQ(a.isHoleyBiases()); M c(2,2,true); c.zeros(); REQ(!c.isHoleyBiases()); c=std::move(a); REQ(c.isHoleyBiases()); REQ(c.test_biases_ok()); printf("ok\n"); return 0; }
''')
# ---------------------------------------------------------------------------------------------------------------- math engine, data movement
BL='-lopenblas -llapacke'
MATH='''#include "nn.hpp"
#include "nntl/interface/threads/workers.h"
#include "nntl/interface/math/mathn.h"
#include "nntl/interface/imemmgr/imemmgr.h"
#include <unistd.h>
'''+TAIL+'''
using namespace nntl; typedef double R; typedef threads::Workers<R,numel_cnt_t> TH; typedef math::MathN<R,TH,imem::imemmgr> IM; typedef math::smatrix_deform<R> M;
'''
NET='''#include "nn.hpp"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
#include <unistd.h>
'''+TAIL+'''
using namespace nntl; typedef double R; typedef dt_interfaces<R> I; typedef grad_works<I> GW_t; namespace act=activation; typedef weights_init::XavierFour WI;
typedef math::smatrix<R> M; typedef math::smatrix_deform<R> MD; typedef inmem_train_data<R> TD;
static MD mk(int n,int w,bool x,int s,R k=.25){ MD m; if(x) m.will_emulate_biases(); else m.dont_emulate_biases(); REQ(m.resize_as_dataset(n,w)); for(int i=0;i<n;i++) for(int j=0;j<w;j++) m.set(i,j,k*((i*3+j*5+s*2+i*i)%7)-.5); return m; }
static void mkTd(TD&td,int n0,int n1,int xw,int yw){ REQ(td.absorb(mk(n0,xw,true,0),mk(n0,yw,false,1),mk(n1,xw,true,2),mk(n1,yw,false,3))); }
#define DONE do{ puts("ok"); fflush(stdout); _exit(0); }while(0)
'''
B('b05_fill_rows','P05',[('nntl/interface/math/mathn.h','''					get_self()._imFillRowsByMask_st(src, pMask, dest, elms_range(r));
				}, dest.cols_no_bias());''','''					get_self()._imFillRowsByMask_st(src, pMask, dest, elms_range(r));
				}, dest.cols());''')],'the multithreaded version with a destination that has a bias column and a mask with at least one zero',
'mFillRowsByMask_mt overwrites the bias column of the destination (and reads after the end of the source)',MATH+'''
int main(){ IM im; M s,d; s.dont_emulate_biases(); REQ(s.resize(5,40)); for(int k=0;k<s.numel();k++) s.data()[k]=k+1; d.will_emulate_biases(); REQ(d.resize(9,40)); R m[9]={1,0,1,1,0,0,1,0,1};
 REQ(d.test_biases_strict()); im.mFillRowsByMask_mt(s,m,d); int q=0; for(int r=0;r<9;r++){ for(int c=0;c<40;c++) REQ(d.get(r,c)==(m[r]?s.get(q,c):0)); q+=m[r]!=0; } REQ(d.test_biases_strict()); puts("ok"); fflush(stdout); _exit(0); }
''',link=BL)
B('b06_ilr_temp','P06',[('nntl/interface/math/mathn.h','''				auto pCond = pTmpMem + ofs;
''','''				auto pCond = pTmpMem + r.tid();
''')],'at least two threads which overlap in time: a thread reads a temporary cell after another thread has written it',
'individual learning rates follow the gradient sign of other weights, depending on timing',MATH+'''
int main(){ alarm(250); IM im; int n=100007; im.preinit(n); REQ(im.init()); M d,p,g; d.dont_emulate_biases(); p.dont_emulate_biases(); g.dont_emulate_biases(); REQ(d.resize(n,1)&&p.resize(n,1)&&g.resize(n,1));
 if(im.ithreads().workers_count()<2){ puts("ok, one thread only"); fflush(stdout); _exit(0); }
 for(int t=0;t<1000;t++){ for(int i=0;i<n;i++){ d.data()[i]=1; p.data()[i]=(i*7/3+i)%3?1:-1; g.data()[i]=1; } im.apply_ILR_mt_vec(d,p,g,.5,2.,.01,100.); for(int i=0;i<n;i++) REQ(g.data()[i]==(p.data()[i]>0?2:.5)&&d.data()[i]==g.data()[i]); }
 puts("ok"); fflush(stdout); _exit(0); }
''',link=BL)
B('b08_selu_bias','P08',[('nntl/interface/math/mathn.h','''			m_threads.run([&srcdest, alpha_t_lambda, lambda, this](const par_range_t& r) noexcept{
				get_self()._iselu_st(srcdest, alpha_t_lambda, lambda, elms_range(r));
			}, srcdest.numel_no_bias());''','''			m_threads.run([&srcdest, alpha_t_lambda, lambda, this](const par_range_t& r) noexcept{
				get_self()._iselu_st(srcdest, alpha_t_lambda, lambda, elms_range(r));
			}, srcdest.numel());''')],'activations that are big enough for the multithreaded SELU and have a bias column',
'SELU is applied to the biases of the layer activations too',MATH+'''
int main(){ IM im; M a; a.will_emulate_biases(); REQ(a.resize(7,50)); for(int r=0;r<7;r++) for(int c=0;c<50;c++) a.set(r,c,(r*5+c)%9-4); M b; b.will_emulate_biases(); REQ(b.resize(7,50)); memcpy(b.data(),a.data(),a.byte_size());
 im.selu_mt(a,1.7,1.05); im.selu_st(b,1.7,1.05); REQ(a.test_biases_strict()); for(int k=0;k<a.numel();k++) REQ(a.data()[k]==b.data()[k]); puts("ok"); fflush(stdout); _exit(0); }
''',link=BL)
B('b07_kbest_idx','P07',[('nntl/interface/math/mathn.h','''					for (vec_len_t i = 0; i < k; ++i) pI[i] = -1;

					if (!bNextBatch) {''','''					if (!bNextBatch) {
						for (vec_len_t i = 0; i < k; ++i) pI[i] = -1;
''')],'a search over at least two batches in which a value of an earlier batch stays among the best ones',
'indexes of the previous batch are reported as if they referred to the current one',MATH+'''
int main(){ IM im; typedef math::mcwFindKOrdered_hlpr<R,math::Order_Biggest> H; typedef H::hlprmtx_t HM; HM hl(H::hlprmtx_size_for(3,1)); M s; s.dont_emulate_biases(); REQ(s.resize(4,1)); R a[]={5,1,9,7},b[]={2,8,3,4}; 
 memcpy(s.data(),a,sizeof a); im.mcwFindKBiggest<R>(s,hl,false); memcpy(s.data(),b,sizeof b); im.mcwFindKBiggest<R>(s,hl,true); auto p=hl.colDataAsVec(0); auto pI=H::get_idxs_ptr_from_column_ptr(p,3); auto pV=H::get_cache_ptr_from_column_ptr(p,3);
 REQ(pV[0]==7&&pV[1]==8&&pV[2]==9); REQ(pI[0]==-1&&pI[1]==1&&pI[2]==-1); puts("ok"); fflush(stdout); _exit(0); }
''',link=BL)
B('b09_xent_sat','P09',[('nntl/interface/math/mathn.h','''					//sum += (oma == real_t(0.0) ? log_zero : log(oma));
#if NNTL_CFG_CAREFULL_LOG_EXP
					ev = (a == real_t(1.0) ? math::real_t_limits<real_t>::log_almost_zero : math::log1p(-a));
#else
					ev = math::log1p_eps(-a);
#endif''','''					//sum += (oma == real_t(0.0) ? log_zero : log(oma));
					ev = math::log1p(-a);''')],'an activation that is exactly 1 for a label 0 in the numerically stable cross entropy',
'the loss becomes infinite',MATH+'''
int main(){ IM im; M a,y; a.dont_emulate_biases(); y.dont_emulate_biases(); REQ(a.resize(3,2)&&y.resize(3,2)); for(int k=0;k<6;k++){ a.data()[k]=.1*k+.2; y.data()[k]=k%2; } a.data()[2]=1; R l=im.loss_xentropy_ns(a,y), m=im.loss_xentropy(a,y); REQ(std::isfinite(m)); REQ(std::isfinite(l)&&std::abs(l-m)<1e-6); puts("ok"); fflush(stdout); _exit(0); }
''',link=BL)
B('b10_decov_upper','P10',[('nntl/interface/math/mathn.h','''			b_BLAS_t::symm(false, bLowerTriangl, vRows, vCols, cmnScale''','''			b_BLAS_t::symm(false, true, vRows, vCols, cmnScale''')],'the variant of DeCov that works with the upper triangle of the covariance matrix',
'the gradient of DeCov is computed from the triangle of the covariance matrix that was never filled',MATH+'''
int main(){ IM im; M v,d1,d2; v.dont_emulate_biases(); d1.dont_emulate_biases(); d2.dont_emulate_biases(); REQ(v.resize(7,5)&&d1.resize(7,5)&&d2.resize(7,5)); for(int k=0;k<35;k++) v.data()[k]=((k*k+3*k)%11)*.25-1; im.preinit(im.loss_DeCov_needTempMem(true,math::smatrix_td::mtx_size_t(7,5))+1000); REQ(im.init());
 im.dLoss_deCov<false,false>(v,d2); im.dLoss_deCov<true,false>(v,d1); for(int k=0;k<35;k++) REQ(std::abs(d1.data()[k]-d2.data()[k])<1e-9); puts("ok"); fflush(stdout); _exit(0); }
''',link=BL)
B('b11_adamax_again','P11',[('nntl/grad_works/grad_works.h','''				if (bFirstRun) {
					m_optBeta1t = real_t(1.);
					m_optMtxA.zeros();
					m_optMtxB.zeros();
				};
				iM.AdaMax(''','''				if (bFirstRun) {
					m_optMtxA.zeros();
					m_optMtxB.zeros();
				};
				iM.AdaMax(''')],'the same layer objects are trained with AdaMax a second time after a deinitialisation',
'the bias correction of the first training leaks into the second one: its first steps are too short',NET+'''
typedef LFC<act::sigm<R,WI>,GW_t> F; typedef layer_output<act::sigm_quad_loss<R,WI>,GW_t> O;
static std::vector<R> go(bool twice){ layer_input<I> i(2); F h(3,.1); O o(1,.1); h.get_gradWorks().set_type(GW_t::AdaMax); auto lp=make_layers(i,h,o); auto nn=make_nnet(lp); TD td; mkTd(td,8,4,2,1);
 for(int t=0;t<1+twice;t++){ nn.deinit(); nnet_train_opts<R> opts(2); opts.batchSize(8).ImmediatelyDeinit(true); MD w; REQ(w.resize(3,3)); for(int k=0;k<9;k++) w.data()[k]=.1*k-.3; REQ(h.set_weights(std::move(w))); MD v; REQ(v.resize(1,4)); for(int k=0;k<4;k++) v.data()[k]=.5*k-.3; REQ(o.set_weights(std::move(v))); REQ(nn.train<false>(td,opts)==decltype(nn)::ErrorCode::Success); } return std::vector<R>(h.get_weights().data(),h.get_weights().data()+9); }
int main(){ auto a=go(false),b=go(true); for(int k=0;k<9;k++) REQ(std::abs(a[k]-b[k])<1e-12); DONE; }
''',link=BL)
B('b12_gate_closed','P12',[('nntl/layer/pack_horizontal_optional.h','''				} else {
					//just zeroing current activations
					curAct.zeros();
				}''','''				} else if (lIdx > 0) {
					//just zeroing current activations
					curAct.zeros();
				}''')],'a batch without a single sample for the first gated layer, after a batch that had some',
'activations of the first optional layer keep the values of the previous batch',NET+'''
typedef LFC<act::sigm<R,WI>,GW_t> F; typedef layer_output<act::sigm_quad_loss<R,WI>,GW_t> O; typedef LIG<500000,I> G; typedef LPHO<false,PHL<G>,PHL<F>,PHL<F>> H;
int main(){ layer_input<I> i(6); G g; F a(2,.1),b(3,.1); H h(make_PHL(g,0,2),make_PHL(a,2,2),make_PHL(b,4,2)); O o(1,.1); auto lp=make_layers(i,h,o); auto nn=make_nnet(lp); TD td; mkTd(td,6,6,6,1); vec_len_t bs=6; REQ(nn.init4fixedBatchFprop(td,bs)==decltype(nn)::ErrorCode::Success);
 for(int open=3;open>=0;open--){ MD x=mk(6,6,true,open); for(int r=0;r<6;r++){ x.set(r,0,open&1); x.set(r,1,open>>1); } nn.doFixedBatchFprop(x); auto&A=h.get_activations(); REQ(A.cols_no_bias()==7); for(int r=0;r<6;r++) for(int c=0;c<7;c++) REQ(c<2?A.get(r,c)==(c?open>>1:open&1):(A.get(r,c)!=0)==bool(c<4?open&1:open>>1)); } DONE; }
''',link=BL)
B('b13_walk_y','P13',[('nntl/train_data/_train_data_simple.h','''							m_batch_y.deform_batch_size(batchSize);
							m_pCurBatchY = &m_batch_y;
						}
					}
				} else {
					m_curBatchSize = -1;''','''							if (m_batch_y.batch_size() < batchSize) m_batch_y.deform_batch_size(batchSize);
							m_pCurBatchY = &m_batch_y;
						}
					}
				} else {
					m_curBatchSize = -1;''')],'a walk over a data set with a smaller batch than the walk before it (data stored batch-in-column)',
'batchY() has more rows than batchX() and reads beyond the part that belongs to the batch',NET+'''
int main(){ I::iMath_t im; I::iRng_t rg; I::iInspect_t ii; bool nl=false; nntl::_impl::common_nn_data<I> cd(im,rg,ii,nl); TD td; mkTd(td,8,8,2,3); vec_len_t mf=6; REQ(td.init4inference(im,mf)==_nnet_errs::ErrorCode::Success); cd.init(mf,0); cd.set_mode_and_batch_size(false,mf);
 static const int bs[]={4,2,4,6,1}; for(int b:bs) for(int s=0;s<2;s++){ int n=8; if(b>n) continue; int nb=td.walk_over_set(s,cd,b,0u); REQ(nb==(n+b-1)/b); int q=0; for(int k=0;k<nb;k++){ td.next_subset(k,cd); int w=std::min(b,n-q); REQ(td.batchX().rows()==w&&td.batchY().rows()==w); for(int r=0;r<w;r++,q++){ for(int c=0;c<2;c++) REQ(td.batchX().get(r,c)==td.X(s).get(q,c)); for(int c=0;c<3;c++) REQ(td.batchY().get(r,c)==td.Y(s).get(q,c)); } } } DONE; }
''',link=BL)
B('b15_loss_pen','P15',[('nntl/nnet.h','''m_bCalcFullLossValue = m_LMR.bLossAddendumDependsOnWeights || m_LMR.bLossAddendumDependsOnActivations;''','''m_bCalcFullLossValue = m_LMR.bLossAddendumDependsOnWeights;''')],'a network whose only penalties are penalties of activations',
'the reported loss silently lacks the penalties although the full loss was asked for',NET+'''
static std::vector<R> g_L; struct Obs: training_observer_silent<R>{ static void on_training_fragment_end(const numel_cnt_t,const R tr,const R te,const std::chrono::nanoseconds&)noexcept{ g_L.push_back(tr); g_L.push_back(te); } };
typedef LFC_PA<std::tuple<loss_addendum::L2<R>>,act::sigm<R,WI>,GW_t> F; typedef layer_output<act::sigm_quad_loss<R,WI>,GW_t> O;
static void go(R pen){ g_L.clear(); layer_input<I> i(2); F h(3,R(0)); O o(1,R(0)); h.addendum<0>().scale(pen); auto lp=make_layers(i,h,o); auto nn=make_nnet(lp); MD w; REQ(w.resize(3,3)); for(int k=0;k<9;k++) w.data()[k]=.1*k-.3; REQ(h.set_weights(std::move(w))); MD v; REQ(v.resize(1,4)); for(int k=0;k<4;k++) v.data()[k]=.5*k-.3; REQ(o.set_weights(std::move(v))); TD td; mkTd(td,8,4,2,1); nnet_train_opts<R,Obs> opts(1); opts.batchSize(8); opts.calcFullLossValue(true); REQ(nn.train<false>(td,opts)==decltype(nn)::ErrorCode::Success); }
int main(){ go(0); auto a=g_L; go(2); auto b=g_L; REQ(a.size()==b.size()&&a.size()>0); for(size_t k=0;k<a.size();k++) REQ(b[k]>a[k]+.01); DONE; }
''',link=BL)
B('b18_lsuv_failed','P18',[('nntl/weights_init/LsuvExt.h','''					STDCOUTL("******* layer " << lyr.get_layer_name_str() << " failed to converge! *********");
				}

				lyr.setIgnoreActivation(false);
			}''','''					STDCOUTL("******* layer " << lyr.get_layer_name_str() << " failed to converge! *********");
				} else lyr.setIgnoreActivation(false);
			}''')],'LSUV over pre-activations that fails to converge for some layer',
'the layer goes on without its activation function after the initialisation',NET+'''
#include "nntl/weights_init/LsuvExt.h"
namespace wi=weights_init; typedef LFC<act::sigm<R,WI>,GW_t> F; typedef layer_output<act::sigm_quad_loss<R,WI>,GW_t> O; typedef wi::procedural::WeightNormSetts<R,R> WS;
int main(){ layer_input<I> i(2); F h(3,.1); O o(1,.1); auto lp=make_layers(i,h,o); auto nn=make_nnet(lp); TD td; mkTd(td,8,4,2,1); vec_len_t bs=8; REQ(nn.init4fixedBatchFprop(td,bs)==decltype(nn)::ErrorCode::Success); MD x=mk(8,2,true,0);
 { WS s; s.bOverPreActivations=true; s.bScaleNormalize=s.bCentralNormalize=true; s.bOnInvidualNeurons=true; s.ScaleTolerance=s.CentralTolerance=1e-30; s.targetScale=7; s.maxTries=1; s.maxReinitTries=1; s.batchSize=0; s.bVerbose=false; wi::procedural::LSUVExt<decltype(nn),TD,R> l(nn,td,s); REQ(!l.run()); }
 REQ(nn.init4fixedBatchFprop(td,bs)==decltype(nn)::ErrorCode::Success); nn.doFixedBatchFprop(x); for(int r=0;r<8;r++) for(int c=0;c<3;c++){ R v=h.get_activations().get(r,c),z=h.get_weights().get(c,2); for(int q=0;q<2;q++) z+=h.get_weights().get(c,q)*x.get(r,q); REQ(std::abs(v-1/(1+std::exp(-z)))<1e-9); } DONE; }
''',link=BL)
B('b20_dump_again','P20',[('nntl/interface/inspectors/dumper.h','m_dumpEpochCond.clear().resize(totalEpochs, false);','m_dumpEpochCond.resize(totalEpochs, false);')],'the same dumper observes a second training with other epochs to dump',
'epochs that were asked for in the previous training are dumped again',NET+'''
#define NNTL_MATLAB_AVAILABLE 1
#include <mat.h>
#include "nntl/_supp/io/matfile.h"
#include "nntl/interface/inspectors/dumper.h"
int main(){ inspector::conds::EpochNum c; c.m_epochsToDump={1}; c.on_init_nnet(4); for(int e=0;e<4;e++) REQ(c.on_train_epochBegin(e,10)==(e==1)); c.m_epochsToDump={3}; c.on_init_nnet(4); for(int e=0;e<4;e++) REQ(c.on_train_epochBegin(e,10)==(e==3)); DONE; }
''',link=BL)
B('b14_fine_column','P14',[('nntl/utils/mtx2Normal.h','''						iM.vAddC_ip_st(pM, pME, vOfs);
					}
				}

				pM += ldm;
''','''						iM.vAddC_ip_st(pM, pME, vOfs);
					}

					pM += ldm;
				}
''')],'columnwise normalisation of data in which a column needs no change and is followed by columns that do in the part of the same thread',
'the map of a column is applied to the column before it',NET+'''
int main(){ I::iMath_t im; I::iRng_t rg; I::iInspect_t ii; bool nl=false; nntl::_impl::common_nn_data<I> cd(im,rg,ii,nl); const R s=std::sqrt(7/8.);
 MD a,b,y0,y1; a.will_emulate_biases(); b.will_emulate_biases(); y0.dont_emulate_biases(); y1.dont_emulate_biases(); REQ(a.resize_as_dataset(8,200)&&b.resize_as_dataset(5,200)&&y0.resize_as_dataset(8,1)&&y1.resize_as_dataset(5,1)); y0.zeros(); y1.zeros();
 for(int k=0;k<8;k++){ R v=(k&1?1:-1)*s; for(int j=0;j<200;j++) a.set(k,j,j%2?v*4+3:2); } for(int k=0;k<5;k++) for(int j=0;j<200;j++) b.set(k,j,k+.5*j); M b0; REQ(b.clone_to(b0)); TD td; REQ(td.absorb(std::move(a),std::move(y0),std::move(b),std::move(y1)));
 nntl::_impl::td_norm<R,R>::NormalizationSettings_t st; st.bColumnwise=true; st.bCentralNormalize=false; st.bScaleNormalize=true; st.targetScale=1; st.targetCentral=0; st.batchSize=-1; st.maxTries=5; st.bVerbose=false; REQ(im.init()); REQ(td.normalize_data<R>(cd,st));
 for(int k=0;k<8;k++) for(int j=0;j<200;j++) REQ(std::abs(td.X(0).get(k,j)-(j%2?(k&1?1:-1)*s+.75:2))<.02); for(int k=0;k<5;k++) for(int j=0;j<200;j++) REQ(std::abs(td.X(1).get(k,j)-(j%2?b0.get(k,j)/4:b0.get(k,j)))<.05); DONE; }
''',link=BL)
B('b16_short_row','P16',[('nntl/_supp/io/jsonreader.h','if (!itr->IsArray() || inrd != conform_sign(itr->Size())) {','if (!itr->IsArray() || inrd < conform_sign(itr->Size())) {')],'a json matrix with a row that is shorter than the first one',
'the malformed file is accepted and the missing elements are uninitialised memory','''#include "nn.hpp"
#include "nntl/interfaces.h"
#include "nntl/nntl.h"
using namespace nntl;
#include "nntl/_supp/io/jsonreader.h"
#include <unistd.h>
'''+TAIL+'''
static int rd(const char*t,nntl::math::smatrix<double>&m){ char f[]="/tmp/jrXXXXXX"; int d=mkstemp(f); REQ(d>=0&&write(d,t,strlen(t))==(ssize_t)strlen(t)); close(d); nntl_supp::jsonreader r; auto e=r.read(f,m); unlink(f); return e==nntl_supp::jsonreader::ErrorCode::Success; }
int main(){ { nntl::math::smatrix<double> m; REQ(rd("{\\"train_x\\":[[1,2],[3,4],[5,6]]}",m)&&m.rows()==2&&m.cols()==3&&m.get(1,2)==6); } { nntl::math::smatrix<double> m; REQ(!rd("{\\"train_x\\":[[1,2],[3],[5,6]]}",m)); } { nntl::math::smatrix<double> m; REQ(!rd("{\\"train_x\\":[[1,2],[3,4,5]]}",m)); } puts("ok"); fflush(stdout); _exit(0); }
''')
B('b17_bg_memory','P17',[('nntl/interface/rng/afrand_as.h','''					pTM += maxSize;''','''					pTM += thread_mem_count4_normal_distr;''')],'at least two background threads that generate uniform numbers at the same time',
'the scratch memory of background threads overlaps: some random numbers are delivered twice and others are lost','''#include "nn.hpp"
#include "nntl/interface/threads/workers.h"
#include <set>
#include <unistd.h>
'''+TAIL+'''
namespace mcr { static std::atomic<int> g_n{0};
struct Src{ uint64_t id,k=0; explicit Src(int){ id=g_n++; } void RandomInit(int){} void RandomInitByArray(const int*,int){} uint32_t BRandom(){ k++; return (uint32_t)(id*40503u*65537u+k*2654435761u); } double Random(){ ++k; return (id*4194304+k)/4294967296.; } float FRandom(){ return (float)Random(); } template<class T> double FPRandom(){ return Random(); } int IRandomX(int a,int){ return a; } }; }
namespace nntl { namespace rng { namespace _impl { template<typename A,typename R> struct AFRAND_MT_THR { static constexpr size_t bnd_gen_vector=1640,bnd_gen_vector_gtz=1640,bnd_gen_vector_norm=1640,bnd_bernoulli_vector=1640,bnd_normal_vector=175; }; } } }
#define NNTL_OVERRIDE_AFRANDOM_MT_THRESHOLDS
#include "nntl/interface/rng/afrand_as.h"
using namespace nntl; typedef threads::Workers<double,numel_cnt_t> TH; typedef rng::AFRand_as<double,mcr::Src,TH> AS;
int main(){ alarm(250); if(std::thread::hardware_concurrency()<3){ puts("ok, too few threads"); fflush(stdout); _exit(0); } TH th; AS g(th,5); const int N=300000; g.preinit_additive_norm(N); REQ(g.init_rng()); std::set<double> s; std::vector<double> v(20000);
 for(int k=0;k<150;k++){ usleep(2000); g.gen_vector_norm(v.data(),(numel_cnt_t)v.size()); for(double d:v){ REQ(d>0); REQ(s.insert(d).second); } } puts("ok"); fflush(stdout); _exit(0); }
''')
B('b19_scalar_type','P19',[('nntl/_supp/io/matfile.h','''				if (1 == r && 1 == c && type2id<BaseT>::id == mxGetClassID(pVar)) {
					t = * static_cast<const BaseT*>(mxGetData(pVar));''','''				if (1 == r && 1 == c && sizeof(BaseT) == mxGetElementSize(pVar)) {
					t = * static_cast<const BaseT*>(mxGetData(pVar));''')],'a scalar that was saved as another type of the same size (for example an int32 that is read as a float)',
'the bytes of the integer are silently reinterpreted as a floating point number','''#define NNTL_MATLAB_AVAILABLE 1
#include <experimental/filesystem>
'''+NET+'''
#include "nntl/utils.h"
#include "nntl/_supp/io/matfile.h"
typedef nntl_supp::omatfile<> OMF; typedef nntl_supp::imatfile<> IMF; using nntl::serialization::make_nvp;
template<class A,class B> static void go(A a,bool same){ const char*f="./b19_scalar.mat"; { OMF o; REQ(o.open(f)==OMF::ErrorCode::Success); o << nntl::serialization::make_nvp("v",a); REQ(o.success()&&o.close()==OMF::ErrorCode::Success); } { IMF i; REQ(i.open(f)==IMF::ErrorCode::Success); B b=B(0); i >> nntl::serialization::make_nvp("v",b); REQ(i.success()==same); if(same) REQ(b==a); else REQ(b==B(0)); i.close(); } }
int main(){ go<int32_t,int32_t>(1067030938,true); go<float,float>(1.5f,true); go<int32_t,float>(1067030938,false); go<uint64_t,double>(77,false); go<double,int64_t>(2.5,false); go<double,float>(2.5,false); DONE; }
''',link=BL)
B('b21_ignored_pack','P21',[('nntl/nnet.h','''				//calling internal layers at first if applicable
				_checkInnerLayers(lyr);

				if (m_failedLayerIdx) return;//do nothing, check has already been failed.

				if (_isLayerIdInList(m_ngcSetts.ignoreLayerIds, lyr.get_layer_idx())) {
					if (m_ngcSetts.bVerbose) STDCOUTL("*** Skipping layer " << lyr.get_layer_name_str() << " by request.");
					return;
				}
''','''				if (_isLayerIdInList(m_ngcSetts.ignoreLayerIds, lyr.get_layer_idx())) {
					if (m_ngcSetts.bVerbose) STDCOUTL("*** Skipping layer " << lyr.get_layer_name_str() << " by request.");
					return;
				}

				//calling internal layers at first if applicable
				_checkInnerLayers(lyr);

				if (m_failedLayerIdx) return;//do nothing, check has already been failed.
''')],'a pack of layers whose own id is in the list of ignored layers while a layer inside of it has a wrong gradient',
'layers inside of an ignored pack are not checked at all and the check passes a wrong network','''#include "nn.hpp"
#include "nntl/interfaces.h"
#include "nntl/interface/inspectors/gradcheck.h"
#include "nntl/nntl.h"
#include <unistd.h>
'''+TAIL+'''
using namespace nntl; typedef double R; namespace act=activation; typedef weights_init::XavierFour WI; typedef math::smatrix<R> M; struct I: d_int_nI<R>{ typedef inspector::GradCheck<R> iInspect_t; }; typedef grad_works<I> GW_t;
struct Wrong: act::sigm<R,WI>{ template<class IM> static void df(realmtx_t&m,IM&i)noexcept{ i.dsigm(m); i.evMulC_ip(m,R(1.5)); } };
template<class A> static bool go(bool ign){ typedef LFC<act::sigm<R,WI>,GW_t> F; typedef LFC<A,GW_t> X; typedef layer_output<act::sigm_quad_loss<R,WI>,GW_t> O; layer_input<I> i(2); X x(3,.1); F f(2,.1); auto v=make_layer_pack_vertical(x,f); O o(1,.1); auto lp=make_layers(i,v,o); auto nn=make_nnet(lp); nn.get_iRng().seed64(3);
 M a,b; a.will_emulate_biases(); b.dont_emulate_biases(); REQ(a.resize_as_dataset(4,2)&&b.resize_as_dataset(4,1)); for(int k=0;k<4;k++){ a.set(k,0,k*.3-.4); a.set(k,1,.9-k*k*.2); b.set(k,0,k%2); } gradcheck_settings<R> s(false,true); s.evalSetts.dLdA_setts.percOfZeros=s.evalSetts.dLdW_setts.percOfZeros=100; if(ign) s.ignoreLayerIds.push_back(v.get_layer_idx()); return nn.gradcheck(a,b,2,s); }
int main(){ REQ((go<act::sigm<R,WI>>(false))); REQ((go<act::sigm<R,WI>>(true))); REQ(!go<Wrong>(false)); REQ(!go<Wrong>(true)); puts("ok"); fflush(stdout); _exit(0); }
''',link=BL)
OOM='''#include <cstdlib>
#include <mm_malloc.h>
#undef _aligned_malloc
static long g_n=0,g_at=-1; static void* am(size_t s,size_t a)noexcept{ g_n++; return g_n==g_at?nullptr:_mm_malloc(s,a); }
#define _aligned_malloc(s,a) am(s,a)
'''
B('b22_dupe_half','P22',[('nntl/train_data/inmem_train_data_stor.h','''				x_mtxdef_t trx, tx;
				y_mtxdef_t trY, ty;

				if (!trx.cloneFrom(train_x())) return false;
				if (!trY.cloneFrom(train_y())) return false;
				if (!tx.cloneFrom(test_x())) return false;
				if (!ty.cloneFrom(test_y())) return false;

				return td.absorb(::std::move(trx), ::std::move(trY), ::std::move(tx), ::std::move(ty));
''','''				if (this == &td) return true;
				return td.train_x_mutable().cloneFrom(train_x()) && td.train_y_mutable().cloneFrom(train_y())
					&& td.test_x_mutable().cloneFrom(test_x()) && td.test_y_mutable().cloneFrom(test_y());
''')],'the memory runs out while the second or a later matrix of a data set is being duplicated',
'a failed duplication leaves the target with a mixture of old and new data instead of leaving it as it was',OOM+NET+r'''
int main(){ for(long at=1;at<=4;at++){ TD a,b,c; mkTd(a,4,2,3,1); mkTd(b,3,3,2,2); mkTd(c,3,3,2,2); g_n=0; g_at=at; bool r=a.dupe(b); g_at=-1; REQ(!r); REQ(b==c); REQ(a.dupe(b)); REQ(a==b); } DONE; }
''',link=BL)
OT='''
typedef LFC<act::sigm<R,WI>,GW_t> F; typedef layer_output<act::sigm_quad_loss<R,WI>,GW_t> O;
int main(){ bool done=false; for(long at=1;!done&&at<60;at++){ layer_input<I> i(3); F f(3,.1); O o(2,.1); auto v=make_layers(i,f,o); auto nn=make_nnet(v); f.get_gradWorks().set_type(GW_t::Adam); o.get_gradWorks().set_type(GW_t::Adam); TD td; mkTd(td,4,2,3,2); nnet_train_opts<R,training_observer_silent<R>> s(2); s.batchSize(2); g_n=0; g_at=at; auto e=nn.train<false>(td,s); done=g_n<at; g_at=-1; REQ(done==(e==nn.ErrorCode::Success)); e=nn.train<false>(td,s); REQ(e==nn.ErrorCode::Success); } REQ(done); DONE; }
'''.replace('nn.ErrorCode','decltype(nn)::ErrorCode')
B('b23_weights_flag','P22',[('nntl/layer/fully_connected.h','''				// initializing
				if (!m_weights.resize(neurons_cnt, incoming_neurons_cnt + 1)) return ErrorCode::CantAllocateMemoryForWeights;

				m_bWeightsInitialized = true;//MUST be set prior call to reinit_weights()
''','''				// initializing
				m_bWeightsInitialized = true;//MUST be set prior call to reinit_weights()
				if (!m_weights.resize(neurons_cnt, incoming_neurons_cnt + 1)) return ErrorCode::CantAllocateMemoryForWeights;

''')],'the allocation of the weights of a layer fails and the network is used again afterwards',
'after a training that failed because there was no memory for weights the layer believes that it has weights: the next training aborts',OOM+NET+OT,link=BL)
B('b24_second_moment','P22',[('nntl/grad_works/grad_works.h','''			if (_optimizerRequiresMatrixA()) {
				if (!m_optMtxA.resize(weightsSize))return false;
			}

			if (_optimizerRequiresMatrixB()) {
				if (!m_optMtxB.resize(weightsSize))return false;
			}
''','''			bool bOptOK = true;
			if (_optimizerRequiresMatrixA()) bOptOK = m_optMtxA.resize(weightsSize);
			if (_optimizerRequiresMatrixB()) bOptOK = m_optMtxB.resize(weightsSize);
			if (!bOptOK) return false;
''')],'the allocation of the first of two matrices of an optimizer fails',
'a training goes on without the storage of the first moments (and writes through a null pointer)',OOM+NET+OT,link=BL)
