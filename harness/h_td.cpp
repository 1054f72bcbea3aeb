// Training data: batches, epochs, walks over sets, storage life cycle.
#include "tdx.hpp"
// drives any training data class through requested epochs and walks, exactly as the network does
template<class TD,class T> struct Drv{ TD&td; Env<T>&e; Drv(TD&t,Env<T>&v):td(t),e(v){} int S(int s){ return e.n[s]*e.sibs; } int big(){ return std::max(S(0),S(1)); }
	void sample(int s,double x0,int&base,int&p){ double v=x0-xv(s,0,0); base=(int)std::floor(v/10); p=(int)std::lround((v-base*10)*4); }
	int idRow(int s,int r,bool x,bool y,double sc=1,double of=0){ int base=-1,p=0; if(x){ sample(s,at(td.batchX(),r,0),base,p); } else { double v=-(at(td.batchY(),r,0))+yv(s,0,0); base=(int)std::floor(v/10); p=(int)std::lround((v-base*10)*4); }
		CK(base>=0&&base<e.n[s]&&p>=0&&p<e.sibs,"row %d is not a sample of set %d",r,s); if(x) for(int j=0;j<e.xw;j++) CK(at(td.batchX(),r,j)==xv(s,base,j)+p*0.25,"batchX(%d,%d)=%g does not belong to sample %d",r,j,at(td.batchX(),r,j),base); if(y) for(int j=0;j<e.yw;j++) CK(at(td.batchY(),r,j)==yv(s,base,j)-p*0.25,"batchY(%d,%d)=%g does not belong to sample %d of batchX",r,j,at(td.batchY(),r,j),base); return base*e.sibs+p; }
	void shapes(int bs,bool x,bool y){ if(x){ auto&X=td.batchX(); CK((int)X.batch_size()==bs&&(int)X.sample_size()==e.xw&&X.bBatchInRow()==(e.sibs==0?false:xrow()),"batchX is %dx%d, expected %d samples of %d",(int)X.batch_size(),(int)X.sample_size(),bs,e.xw); okBias(X); } if(y){ auto&Y=td.batchY(); CK((int)Y.batch_size()==bs&&(int)Y.sample_size()==e.yw&&!Y.emulatesBiases()&&Y.bBatchInRow()==yrow(),"batchY is %dx%d, expected %d samples of %d",(int)Y.batch_size(),(int)Y.sample_size(),bs,e.yw); } }
	bool tf=false; bool xrow(){ return !tf&&e.lx; } bool yrow(){ return !tf&&e.ly; }
	void init(bool train,int mf,int mb){ vec_len_t f=mf,b=mb; bool mini=false; EC ec=train?td.init4train(e.im,f,b,&mini):td.init4inference(e.im,f); mc::op(); H(" %s(%d,%d)",train?"init4train":"init4inference",mf,mb); int ef=mf<=0||mf>big()?big():mf, eb=mb<=0||mb>S(0)?S(0):mb; vec_len_t z=0,z2=0; bool bm=false;
		if(train&&eb>ef){ CK(ec==EC::InvalidBatchSize2MaxFPropSizeRelation,"batch size above the forward size gives code %d",(int)ec); CK(!td.is_initialized4inference(z)&&!td.is_initialized4train(z,z2,bm),"initialised after a failed init"); return; }
		CK(ec==EC::Success,"init failed with %d",(int)ec); CK(f==ef,"forward size adjusted to %d, expected %d",(int)f,ef); if(train){ CK(b==eb,"batch size adjusted to %d, expected %d",(int)b,eb); CK(mini==(eb<S(0)),"minibatch flag %d",(int)mini); }
		CK(td.is_initialized4inference(z)&&z==ef,"not initialised for inference after init (size %d)",(int)z); z=0; bool it=td.is_initialized4train(z,z2,bm); if(train){ CK(it&&z==ef&&z2==eb&&bm==mini,"not initialised for training with the sizes of init: %d %d/%d %d/%d mini %d/%d",(int)it,(int)z,ef,(int)z2,eb,(int)bm,(int)mini); } else CK(!it,"initialised for training after init4inference"); }
	void deinit(){ td.deinit4all(); H(" deinit"); vec_len_t z=0,y=0; bool b; CK(!td.is_initialized4inference(z),"initialised after deinit"); CK(!td.is_initialized4train(z,y,b),"initialised for training after deinit"); CK(z==0&&y==0,"arguments changed by a negative answer"); }
	// an epoch with batch size bs; how: 0 = from common data, 1 = explicit
	void epoch(int bs,bool how,int ep,int stopAfter=1<<30){ vec_len_t f=0,b=bs; bool m=false; if(!td.is_initialized4train(f,b,m)){ CK(f==0&&b==bs,"arguments changed by a negative answer"); init(true,big(),bs); f=big(); b=bs; } CK(b==bs,"batch size changed"); H(" epoch(%d)",bs); e.cd.deinit(); e.cd.init(f,b); e.cd.set_mode_and_batch_size(true,how&&(e.n[0]+ep)%2?1:bs); int nb=(int)td.on_next_epoch(ep,e.cd,how?bs:0); mc::op(); CK(nb==S(0)/bs,"%d batches of %d samples out of %d",nb,bs,S(0)); std::set<int> seen; for(int k=0;k<nb&&k<stopAfter;k++){ td.on_next_batch(k,e.cd); mc::op(); shapes(bs,true,true); for(int r=0;r<bs;r++){ int id=idRow(TR,r,true,true); CK(seen.insert(id).second,"sample %d appears twice in an epoch",id); } uint64_t h=0; for(int i:seen) h=mc::hmix(h,i); mc::outcome(h); } }
	void walk(int s,int bs,int ex,bool how){ vec_len_t z=bs<0?0:bs; if(!td.is_initialized4inference(z)){ init(false,bs<0?0:bs,0); z=0; CK(td.is_initialized4inference(z),"init"); } int mx=(int)z; H(" walk(%d,%d,ex%d)",s,bs,ex); int eff=bs<0?mx:bs; e.cd.deinit(); e.cd.init(eff,0); e.cd.set_mode_and_batch_size(false,how?1:eff); vec_len_t q=0; td.is_initialized4inference(q); int dflt=(int)q; if(bs<0) eff=dflt; bool x=ex!=1,y=ex!=2; int nb=(int)td.walk_over_set(s,e.cd,bs<0?-1:how?bs:0,(unsigned)ex); mc::op(); int es=std::min(eff,S(s)); CK(nb==(S(s)+es-1)/es,"%d subsets of %d samples for %d samples",nb,es,S(s)); int pos=0; for(int k=0;k<nb;k++){ td.next_subset(k,e.cd); mc::op(); int cb=std::min(es,S(s)-pos); shapes(cb,x,y); for(int r=0;r<cb;r++){ int id=idRow(s,r,x,y); CK(id==pos,"subset sample %d is sample %d of the set",pos,id); pos++; } } CK(pos==S(s),"walk covered %d of %d samples",pos,S(s)); }
	void info(){ CK(td.datasets_count()==2&&!td.empty(),"sets"); CK((int)td.trainset_samples_count()==S(0)&&(int)td.testset_samples_count()==S(1)&&(int)td.dataset_samples_count(0)==S(0)&&(int)td.dataset_samples_count(1)==S(1),"sample counts"); CK((int)td.xWidth()==e.xw&&(int)td.yWidth()==e.yw,"widths"); CK(td.isSuitableForOutputOf(e.yw)&&!td.isSuitableForOutputOf(e.yw+1),"suitability"); char b[32]; auto f=td.get_dataset_naming_function(); f(0,b,32); CK(!strcmp(b,"train"),"name"); f(1,b,32); CK(!strcmp(b,"test"),"name"); } };
template<class T,class ST> static void unchanged(ST&st,Env<T>&e){ for(int s=0;s<2;s++){ CK((int)st.X(s).batch_size()==e.n[s]&&(int)st.Y(s).batch_size()==e.n[s],"stored set resized"); for(int i=0;i<e.n[s];i++){ for(int j=0;j<e.xw;j++) CK(at(st.X(s),i,j)==xv(s,i,j),"stored X changed"); for(int j=0;j<e.yw;j++) CK(at(st.Y(s),i,j)==yv(s,i,j),"stored Y changed"); } } }
template<class D> static void ops(D&d,int N,int depth){ for(int q=0;q<depth;q++){ int o=mc::choose(q==0?3:2); if(o==0){ int bs=1+mc::choose(d.S(0)/d.e.sibs); bs*=d.e.sibs; bool how=(bs+q+d.e.n[0])&1; int st=d.S(0)/bs>1?mc::choose(2):0; rngMode(d.e.n[0]); d.epoch(bs,how,q,st?1:1<<30); } else if(o==1){ int s=mc::choose(2); int bs=mc::choose(d.big()/d.e.sibs+1); bs=bs?bs*d.e.sibs:-1; int ex=mc::choose(3); d.walk(s,bs,ex,(bs+q)&1); } else d.deinit(); mc::state(mc::hbytes(g_h.data(),g_h.size())); } }
template<class T> static void absorbAll(nntl::inmem_train_data_stor<T,T>&st,Env<T>&e,int how){ typedef typename HI<T>::iMath_t IM; bool direct=how==1; CK(st.absorb(mkX<T>(0,e.n[0],e.xw,direct&&e.lx),mkX<T>(0,e.n[0],e.yw,direct&&e.ly,false),mkX<T>(1,e.n[1],e.xw,direct&&e.lx),mkX<T>(1,e.n[1],e.yw,direct&&e.ly,false)),"consistent data (%s) refused",direct?"as stored":"samples in rows"); if(!direct){ if(e.lx&&e.ly) st.template transpose<IM>(); else if(e.lx) st.template transposeX<IM>(); else if(e.ly) st.template transposeY<IM>(); } CK(st.X(0).bBatchInRow()==e.lx&&st.X(1).bBatchInRow()==e.lx&&st.Y(0).bBatchInRow()==e.ly&&st.Y(1).bBatchInRow()==e.ly,"layout after transposition"); CK(st.samplesXStorageCoherent()&&st.samplesYStorageCoherent()&&st.samplesStorageCoherent()==(e.lx==e.ly),"coherence"); unchanged(st,e); }
// in-memory data: sizes x layouts x initialisation x sequences of epochs/walks
static void inmem(int maxN,int depth,bool initFirst){ Env<double> e; g_h.clear(); g_W=2; g_order=0; e.n[0]=1+mc::choose(maxN); e.n[1]=1+mc::choose(maxN-(maxN>4)); int sh=depth==1?mc::choose(2):(e.n[0]+e.n[1])&1; e.xw=sh?2:1; e.yw=sh?1:2; e.lx=mc::choose(2); e.ly=mc::choose(2); mc::shard(); int how=depth==1?mc::choose(2):(e.n[0]&1); H("inmem train=%d test=%d x=%d y=%d rowX=%d rowY=%d:",e.n[0],e.n[1],e.xw,e.yw,(int)e.lx,(int)e.ly); nntl::inmem_train_data<double> td; CK(td.empty(),"new data is not empty"); absorbAll<double>(td,e,how); Drv<nntl::inmem_train_data<double>,double> d(td,e); d.info(); if(initFirst){ int mf=mc::choose(d.big()+2), mb=mc::choose(d.S(0)+2), tr=mc::choose(2); if(!tr&&mb) throw mc::Skip(); d.init(tr,mf,mb); } ops(d,maxN,depth); unchanged(td,e); mc::sample("%s",g_h.c_str()); g_rngI=nullptr; }
SCENARIO(inmem_one){ inmem(mc::thorough()?6:5,1,true); }
SCENARIO(inmem_two){ inmem(3,2,true); }
SCENARIO(inmem_three){ inmem(mc::thorough()?3:2,3,false); }
SCENARIO(transformed){ Env<double> e; g_h.clear(); g_W=2; e.n[0]=1+mc::choose(mc::thorough()?4:3); e.n[1]=1+mc::choose(3); e.sibs=1+mc::choose(2); e.xw=2; e.yw=1; e.lx=mc::choose(2); e.ly=e.lx^(e.n[1]&1); mc::shard(); H("transformed train=%d test=%d sibs=%d rowX=%d rowY=%d:",e.n[0],e.n[1],e.sibs,(int)e.lx,(int)e.ly); typedef Tf<double> F; F f(e.sibs); F::TD_stor_t st; absorbAll<double>(st,e,0); typedef nntl::transf_train_data<F> TD; TD td(f,st); Drv<TD,double> d(td,e); d.tf=true; d.info(); int mf=mc::choose(d.big()/e.sibs+2)*e.sibs, mb=mc::choose(e.n[0]+2)*e.sibs, tr=mc::choose(2); if(!tr&&mb) throw mc::Skip(); if(e.sibs>1&&mc::choose(2)){ vec_len_t a=mf+1,b=mb; bool m; CK((tr?td.init4train(e.im,a,b,&m):td.init4inference(e.im,a))==EC::OtherTdInitError,"a forward size that splits a base sample was accepted"); } d.init(tr,mf,mb); ops(d,4,2); unchanged(st,e); mc::sample("%s",g_h.c_str()); g_rngI=nullptr; }
// over all outcomes of the random source an epoch takes the samples in every possible order, each equally often, in every epoch
static void orders(bool tf){ Env<double> e; g_h.clear(); g_W=1; g_order=0; e.n[0]=2+mc::choose(mc::thorough()?4:3); e.n[1]=1; e.xw=1; e.yw=1; e.lx=tf?0:mc::choose(2); e.ly=0; e.sibs=1; int bs=1+mc::choose(e.n[0]-1), eps=1+mc::choose(2); mc::shard(); H("%s orders train=%d batch=%d after %d epochs",tf?"transformed":"inmem",e.n[0],bs,eps-1); mc::state(mc::hbytes(g_h.data(),g_h.size())); std::map<std::vector<int>,int> cnt; int runs=0; std::vector<int> pick,lim;
	for(;;){ size_t pos=0; auto go=[&](auto&td){ vec_len_t f=e.n[0],b=bs; bool mini=false; CK(td.init4train(e.im,f,b,&mini)==EC::Success,"init"); e.cd.deinit(); e.cd.init(f,b); e.cd.set_mode_and_batch_size(true,bs); std::vector<int> o; for(int ep=0;ep<eps;ep++){ bool last=ep==eps-1; o.clear(); g_rngI=[&](ptrdiff_t lt)->ptrdiff_t{ if(!last) return lt>1?lt-2:0; if(pos==pick.size()){ pick.push_back(0); lim.push_back((int)lt); } return pick[pos++]; }; int nb=(int)td.on_next_epoch(ep,e.cd,0); for(int k=0;k<nb;k++){ td.on_next_batch(k,e.cd); for(int r=0;r<bs;r++) o.push_back((int)std::floor((at(td.batchX(),r,0)-xv(0,0,0))/10+.01)); } } td.deinit4all(); mc::op(); cnt[o]++; runs++; };
		if(tf){ typedef Tf<double> F; F fn(1); F::TD_stor_t st; absorbAll<double>(st,e,0); nntl::transf_train_data<F> td(fn,st); go(td); } else { nntl::inmem_train_data<double> td; absorbAll<double>(td,e,0); go(td); }
		while(!pick.empty()&&pick.back()+1>=lim.back()){ pick.pop_back(); lim.pop_back(); } if(pick.empty()) break; pick.back()++; if(runs>20000) break; }
	g_rngI=nullptr; int used=e.n[0]/bs*bs; long perms=1; for(int k=0;k<used;k++) perms*=e.n[0]-k; CK((long)cnt.size()==perms,"only %d of %ld orders of the samples can occur",(int)cnt.size(),perms); int mn=1<<30,mx=0; for(auto&q:cnt){ mn=std::min(mn,q.second); mx=std::max(mx,q.second); } CK(mn==mx,"some order occurs %d times as often as another",mx/mn); mc::outcome(perms*10+eps); }
SCENARIO(orders_inmem){ orders(false); }
SCENARIO(orders_transformed){ orders(true); }
// storage life cycle: which data are accepted, moves, copies, replacement, extraction
SCENARIO(storage){ g_h.clear(); Env<double> e; e.n[0]=1+mc::choose(3); e.n[1]=1+mc::choose(2); e.xw=1+mc::choose(3); e.yw=1+mc::choose(2); e.lx=mc::choose(2); e.ly=mc::choose(2); mc::shard(); typedef math::smatrix_deform<double> M; int bad=mc::choose(12); H("storage train=%d test=%d x=%d y=%d rowX=%d rowY=%d defect=%d",e.n[0],e.n[1],e.xw,e.yw,(int)e.lx,(int)e.ly,bad); M a=mkX<double>(0,e.n[0]+(bad==1),e.xw+(bad==5),e.lx,bad!=3), b=mkX<double>(0,e.n[0],e.yw+(bad==6),e.ly,bad==4), c=mkX<double>(1,e.n[1]+(bad==2),e.xw,e.lx,bad!=7), d=mkX<double>(1,e.n[1],e.yw,e.ly,bad==8); if(bad==9) a.clear(); if(bad==10) d.clear(); M ext; if(bad==11){ ext=mkX<double>(0,e.n[0],e.yw,e.ly,false); M v; v.useExternalStorage(ext.data(),ext.rows(),ext.cols(),false,false,ext.bBatchInRow()); b=std::move(v); }
	nntl::inmem_train_data_stor<double,double> st; bool ok=st.absorb(std::move(a),std::move(b),std::move(c),std::move(d)); CK(ok==(bad==0),"absorb returned %d",(int)ok); CK(st.empty()==!ok,"empty() after absorb"); if(ok){ unchanged(st,e); nntl::inmem_train_data_stor<double,double> s2; CK(st.dupe(s2),"dupe failed"); unchanged(s2,e); CK(s2==st,"copy differs"); unchanged(st,e); s2.X_mutable(1).data()[0]+=1; CK(!(s2==st),"copy shares storage"); unchanged(st,e);
		int rb=mc::choose(4); M ny=mkX<double>(0,e.n[0]+(rb==1),e.yw+1,e.ly,false), nt=mkX<double>(1,e.n[1]+(rb==2),e.yw+1+(rb==3),e.ly,false); H(" replaceY=%d",rb); CK(st.replace_Y(std::move(ny),std::move(nt))==(rb==0),"replace_Y"); if(!rb) e.yw++; unchanged(st,e);
		nntl::inmem_train_data_stor<double,double> s3; s3=std::move(st); unchanged(s3,e); CK(st.empty(),"source of a move is not empty"); M t1,t2,t3,t4; s3.extract(t1,t2,t3,t4); CK(s3.empty()&&(int)t1.batch_size()==e.n[0]&&(int)t4.batch_size()==e.n[1],"extract"); CK(st.absorb(std::move(t1),std::move(t2),std::move(t3),std::move(t4)),"absorb of extracted data"); unchanged(st,e); st.clear(); CK(st.empty(),"clear"); }
	mc::state(mc::hbytes(g_h.data(),g_h.size())); mc::sample("%s",g_h.c_str()); }
