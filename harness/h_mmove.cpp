// Data movement of the math engine: every operation's destination holds exactly the selected source elements.
#include "mathx.hpp"
static int R15(int hi=4){ return 1+mc::choose(hi); }
// element identity is all that matters to a copy: values are distinct
static double dv(int i,int j){ return 100*(i+1)+j+1; }
#define SIZES int r=dim(), c=dim(); mc::shard();
BOTH(extractRows){ typedef IMT<R> IM; SIZES bool sb=mc::choose(2), db=mc::choose(2); int dr=1+mc::choose(r);
	auto S=mk<R>(r,c,sb,false,dv); auto D=mkj<R>(dr,c,db); auto s0=snap(S);
	// every index sequence for few rows, otherwise some sequences
	std::vector<VL> ix(dr); double tot=1; for(int i=0;i<dr;i++) tot*=r; if(tot<=27){ int k=mc::choose((int)tot); for(int i=0;i<dr;i++){ ix[i]=VL(k%r); k/=r; } } else { int k=mc::choose(4); for(int i=0;i<dr;i++) ix[i]=VL(k==0?i:k==1?r-1-i:k==2?(i*3+1)%r:0); }
	ctx("src %dx%d bias %d -> %d rows bias %d",r,c,sb,dr,db);
	exec<IM>({VAR("mExtractRows",1,im.mExtractRows(S,ix.begin(),D)),VAR("mExtractBatches",1,im.mExtractBatches(S,ix.begin(),D)),VAR("mExtractRows_seqWrite_st",0,im.mExtractRows_seqWrite_st(S,ix.begin(),D)),VAR("mExtractRows_seqWrite_mt",2,im.mExtractRows_seqWrite_mt(S,ix.begin(),D))});
	cmpM(D,[&](int i,int j)->double{ return j<c?dv((int)ix[i],j):1; }); same(S,s0,"source"); }
BOTH(extractCols){ typedef IMT<R> IM; SIZES bool bir=mc::choose(2), sb=bir?mc::choose(2):0, db=bir?mc::choose(2):0; int dc=1+mc::choose(c);
	auto S=mk<R>(r,c,sb,bir,dv); auto D=mkj<R>(r,dc,db,bir); auto s0=snap(S);
	std::vector<VL> ix(dc); double tot=1; for(int i=0;i<dc;i++) tot*=c; if(tot<=27){ int k=mc::choose((int)tot); for(int i=0;i<dc;i++){ ix[i]=VL(k%c); k/=c; } } else { int k=mc::choose(4); for(int i=0;i<dc;i++) ix[i]=VL(k==0?i:k==1?c-1-i:k==2?(i*3+1)%c:0); }
	ctx("src %dx%d bias %d/%d bir %d -> %d cols",r,c,sb,db,bir,dc);
	std::vector<Var<IM>> v={VAR("mExtractCols",1,im.mExtractCols(S,ix.begin(),D)),VAR("mExtractCols_st",0,im.mExtractCols_st(S,ix.begin(),D)),VAR("mExtractCols_mt",2,im.mExtractCols_mt(S,ix.begin(),D))};
	if(bir) v.push_back(VAR("mExtractBatches",1,im.mExtractBatches(S,ix.begin(),D)));
	exec<IM>(v); cmpM(D,[&](int i,int j)->double{ return i<r?dv(i,(int)ix[j]):1; }); same(S,s0,"source"); }
BOTH(extractRowsSeq){ typedef IMT<R> IM; SIZES bool b=mc::choose(2); int dr=1+mc::choose(r); int ofs=mc::choose(r-dr+1);
	auto S=mk<R>(r,c,b,false,dv); auto D=mkj<R>(dr,c,b); auto s0=snap(S); ctx("src %dx%d bias %d rows %d..+%d",r,c,b,ofs,dr);
	exec<IM>({VAR("mExtractRowsSeq",1,im.mExtractRowsSeq(S,VL(ofs),D)),VAR("mExtractRowsSeq_st",0,im.mExtractRowsSeq_st(S,VL(ofs),D)),VAR("mExtractRowsSeq_mt",2,im.mExtractRowsSeq_mt(S,VL(ofs),D))});
	cmpM(D,[&](int i,int j)->double{ return j<c?dv(i+ofs,j):1; }); same(S,s0,"source"); }
BOTH(rowsByMask){ typedef IMT<R> IM; int r=2+mc::choose(mc::thorough()?6:4),c=dim(); mc::shard(); bool sb=mc::choose(2), db=mc::choose(2); int m=1+mc::choose((1<<r)-2); std::vector<int> on; Vec<R> mask(r); for(int i=0;i<r;i++){ bool q=(m>>i)&1; mask[i]=R(q); if(q) on.push_back(i); } int k=(int)on.size();
	ctx("%dx%d mask %x biases %d/%d",r,c,m,sb,db);
	if(mc::choose(2)){ auto S=mk<R>(r,c,sb,false,dv); auto D=mkj<R>(k,c,db); auto s0=snap(S);
		exec<IM>({VAR("mExtractRowsByMask",1,im.mExtractRowsByMask(S,mask,D)),VAR("mExtractRowsByMask_st",0,im.mExtractRowsByMask_st(S,mask,D)),VAR("mExtractRowsByMask_mt",2,im.mExtractRowsByMask_mt(S,mask,D))});
		cmpM(D,[&](int i,int j)->double{ return j<c?dv(on[i],j):1; }); same(S,s0,"source"); }
	else { auto S=mk<R>(k,c,sb,false,dv); auto D=mkj<R>(r,c,db); auto s0=snap(S);
		exec<IM>({VAR("mFillRowsByMask",1,im.mFillRowsByMask(S,mask,D)),VAR("mFillRowsByMask_st",0,im.mFillRowsByMask_st(S,mask,D)),VAR("mFillRowsByMask_mt",2,im.mFillRowsByMask_mt(S,mask,D))});
		cmpM(D,[&](int i,int j)->double{ if(j>=c) return 1; for(int q=0;q<k;q++) if(on[q]==i) return dv(q,j); return 0; }); same(S,s0,"source"); }
	for(int i=0;i<r;i++) CHECK(mask[i]==R((m>>i)&1),"mask changed"); }
BOTH(cloneCols){ typedef IMT<R> IM; int r=R15(4), c=R15(4); mc::shard(); Vec<VL> spec(c); std::vector<int> from; for(int j=0;j<c;j++){ int n=1+mc::choose(3); spec[j]=VL(n); for(int q=0;q<n;q++) from.push_back(j); } 
	auto S=mk<R>(r,c,false,false,dv); auto D=mkj<R>(r,(int)from.size()); auto s0=snap(S); ctx("src %dx%d -> %d columns",r,c,(int)from.size());
	exec<IM>({VAR("mCloneCols",1,im.mCloneCols(S,D,spec)),VAR("mCloneCols_st",0,im.mCloneCols_st(S,D,spec)),VAR("mCloneCols_mt",2,im.mCloneCols_mt(S,D,spec))});
	cmpM(D,[&](int i,int j){ return dv(i,from[j]); }); same(S,s0,"source"); }
BOTH(cloneCol){ typedef IMT<R> IM; SIZES auto S=mk<R>(r,1,false,false,dv); auto D=mkj<R>(r,c); auto s0=snap(S); ctx("src %dx1 -> %d columns",r,c);
	exec<IM>({VAR("mCloneCol",1,im.mCloneCol(S,D)),VAR("mCloneCol_st",0,im.mCloneCol_st(S,D)),VAR("mCloneCol_mt",2,im.mCloneCol_mt(S,D))});
	cmpM(D,[&](int i,int j){ return dv(i,0); }); same(S,s0,"source"); }
BOTH(tiling){ typedef IMT<R> IM; int m=R15(4),n=R15(4),k=2+mc::choose(4); mc::shard(); bool b=mc::choose(2); ctx("m=%d n=%d k=%d bias %d",m,n,k,b);
	if(mc::choose(2)){ auto S=mk<R>(m,k*n,b,false,dv); auto D=mkj<R>(k*m,n,b); auto s0=snap(S);
		exec<IM>({VAR("mTilingRoll",1,im.mTilingRoll(S,D)),VAR("mTilingRoll_st",0,im.mTilingRoll_st(S,D)),VAR("mTilingRoll_mt",2,im.mTilingRoll_mt(S,D)),VAR("mTilingRoll_seqread_st",0,im.mTilingRoll_seqread_st(S,D)),VAR("mTilingRoll_seqread_mt",2,im.mTilingRoll_seqread_mt(S,D)),VAR("mTilingRoll_seqwrite_st",0,im.mTilingRoll_seqwrite_st(S,D)),VAR("mTilingRoll_seqwrite_mt",2,im.mTilingRoll_seqwrite_mt(S,D))});
		cmpM(D,[&](int i,int j)->double{ return j<n?dv(i%m,(i/m)*n+j):1; }); same(S,s0,"source");
		// and the inverse restores the source
		auto U=mkj<R>(m,k*n,b); IM im; im.init(); im.mTilingUnroll_st(D,U); same(U,s0,"roll then unroll"); }
	else { auto S=mk<R>(k*m,n,b,false,dv); auto D=mkj<R>(m,k*n,b); auto s0=snap(S);
		exec<IM>({VAR("mTilingUnroll",1,im.mTilingUnroll(S,D)),VAR("mTilingUnroll_st",0,im.mTilingUnroll_st(S,D)),VAR("mTilingUnroll_mt",2,im.mTilingUnroll_mt(S,D)),VAR("mTilingUnroll_seqread_st",0,im.mTilingUnroll_seqread_st(S,D)),VAR("mTilingUnroll_seqread_mt",2,im.mTilingUnroll_seqread_mt(S,D)),VAR("mTilingUnroll_seqwrite_st",0,im.mTilingUnroll_seqwrite_st(S,D)),VAR("mTilingUnroll_seqwrite_mt",2,im.mTilingUnroll_seqwrite_mt(S,D))});
		cmpM(D,[&](int i,int j)->double{ return j<k*n?dv((j/n)*m+i,j%n):1; }); same(S,s0,"source"); } }
BOTH(transpose){ typedef IMT<R> IM; SIZES bool bir=mc::choose(2); int mode=mc::choose(4); // 0 no biases, 1 both biased & whole, 2: src biased ignore, 3: dest biased ignore... plus both ignore
	bool sb=mode==1||mode==2, db=mode==1||mode==3; bool ign=mode>=1?mc::choose(2):0; if((sb!=db)&&!ign) ign=true;
	auto S=mk<R>(r,c,sb,bir,dv); auto D=mkj<R>(c,r,db,!bir); auto s0=snap(S); ctx("%dx%d bir %d biases %d/%d ignore %d",r,c,bir,sb,db,ign);
	std::vector<Var<IM>> v={VAR("mTranspose",0,im.mTranspose(S,D,ign)),VAR("mTranspose_seq_read",0,im.mTranspose_seq_read(S,D,ign)),VAR("mTranspose_seq_write",0,im.mTranspose_seq_write(S,D,ign))}; if(ign) v.push_back(VAR("mTranspose_ignore_bias",0,im.mTranspose_ignore_bias(S,D)));
	exec<IM>(v); cmpM(D,[&](int i,int j)->double{ return i<c&&j<r?dv(j,i):1; }); same(S,s0,"source"); }
BOTH(transposeInPlace){ typedef IMT<R> IM; SIZES bool bir=mc::choose(2),b=mc::choose(2); auto S=mk<R>(r,c,b,bir,dv); ctx("%dx%d bir %d bias %d",r,c,bir,b);
	exec<IM>({VAR("s_mTranspose_ip",0,im.s_mTranspose_ip(S)),VAR("s_mTranspose_ip_BLAS",0,im.s_mTranspose_ip_BLAS(S))});
	CHECK(S.bBatchInRow()==!bir&&S.emulatesBiases()==b&&(int)S.rows_no_bias()==c&&(int)S.cols_no_bias()==r,"shape after in-place transposition"); cmpM(S,[&](int i,int j)->double{ return i<c&&j<r?dv(j,i):1; }); }
SCENARIO(transposeInPlaceInt){ typedef IMT<float> IM; SIZES auto S=mk<int>(r,c,false,false,dv); auto T=mk<long long>(r,c,false,true,dv); exec<IM>({VAR("s_mTranspose_ip<int>",0,im.s_mTranspose_ip(S)),VAR("s_mTranspose_ip<int64>",0,im.s_mTranspose_ip(T))}); if(strstr(g_var,"64")) cmpM(T,[&](int i,int j){ return dv(j,i); }); else cmpM(S,[&](int i,int j){ return dv(j,i); }); }
static const double FR[]={-1,0,0.5,1};
BOTH(binarize){ typedef IMT<R> IM; int r=R15(4),c=R15(4); mc::shard(); bool b=mc::choose(2); double fr=FR[mc::choose(4)]; static const double AL[]={0,0.5,1}; Cont f=cont(r*c,4,AL,3); auto val=[&](int i,int j){ return f(i+r*j)*(f.code<0?0.25:1); };
	auto A=mk<R>(r,c,b,false,val); auto s0=snap(A); ctx("%dx%d bias %d threshold %g",r,c,b,fr);
	if(mc::choose(2)){ auto D=mk<char>(r,c,false,false,[](int,int){ return 7; });
		exec<IM>({VAR("ewBinarize",1,im.ewBinarize(D,A,R(fr))),VAR("ewBinarize_st",0,im.ewBinarize_st(D,A,R(fr))),VAR("ewBinarize_mt",2,im.ewBinarize_mt(D,A,R(fr)))});
		cmpM(D,[&](int i,int j){ return val(i,j)>fr?1:0; }); same(A,s0,"source"); }
	else { bool bn=mc::choose(2); R lo=bn?R(-2):R(0),hi=bn?R(3):R(1);
		exec<IM>({VAR("ewBinarize_ip",1,im.ewBinarize_ip(A,R(fr),lo,hi)),VAR("ewBinarize_ip_st",0,im.ewBinarize_ip_st(A,R(fr),lo,hi)),VAR("ewBinarize_ip_mt",2,im.ewBinarize_ip_mt(A,R(fr),lo,hi))});
		cmpM(A,[&](int i,int j)->double{ return j<c?(val(i,j)>fr?hi:lo):1; }); } }
BOTH(binarizeBatch){ typedef IMT<R> IM; int r=R15(4),c=R15(4); mc::shard(); int pre=mc::choose(3),post=mc::choose(3); bool b=mc::choose(2); double fr=FR[mc::choose(4)]; Cont f=contp(); auto val=[&](int i,int j){ return f(i+r*j)*0.25; };
	auto A=mk<R>(r,c,b,false,val); auto s0=snap(A); auto D=mk<char>(pre+r+post,c,false,false,[](int,int){ return 7; }); ctx("%dx%d into rows %d.. of %d",r,c,pre,pre+r+post);
	exec<IM>({VAR("ewBinarizeBatch",1,im.ewBinarizeBatch(D,VL(pre),A,R(fr))),VAR("ewBinarizeBatch_st",0,im.ewBinarizeBatch_st(D,VL(pre),A,R(fr))),VAR("ewBinarizeBatch_mt",2,im.ewBinarizeBatch_mt(D,VL(pre),A,R(fr)))});
	cmpM(D,[&](int i,int j)->double{ return i<pre||i>=pre+r?7:(val(i-pre,j)>fr?1:0); }); same(A,s0,"source"); }
BOTH(countSame){ typedef IMT<R> IM; int r=R15(3),c=R15(3); mc::shard(); int ofs=mc::choose(3); Cont f=cont(r*c,4,AL2,2), g=cont(r*c,4,AL2,2); auto A=mk<int>(r+ofs,c,false,false,[&](int i,int j){ return i<ofs?1:f(i-ofs+r*j); }); auto B=mk<int>(r,c,false,false,[&](int i,int j){ return g(i+r*j); });
	int e=0; for(int k=0;k<r*c;k++) e+=f(k)==g(k); numel_cnt_t got=-1; ctx("%dx%d row offset %d",r,c,ofs); auto a0=snap(A);
	if(mc::choose(2)){ exec<IM>({VAR("vCountSameBatch",1,got=im.vCountSameBatch(A,VL(ofs),B)),VAR("vCountSameBatch_st_naive",0,got=im.vCountSameBatch_st_naive(A,VL(ofs),B))}); cmpS((double)got,e); }
	else { std::vector<int> a(A.numel()+2),bb(B.numel()); for(size_t i=0;i<a.size();i++) a[i]=(i<(size_t)A.numel())?A.data()[i]:1; for(size_t i=0;i<bb.size();i++) bb[i]=B.data()[i]; int o=mc::choose((int)(a.size()-bb.size())+1); e=0; for(size_t i=0;i<bb.size();i++) e+=a[i+o]==bb[i];
		exec<IM>({VAR("vCountSame",1,got=im.vCountSame(a,bb,VL(o))),VAR("vCountSame_st_naive",0,got=im.vCountSame_st_naive(a,bb,VL(o))),VAR("vCountSame_mt_naive",2,got=im.vCountSame_mt_naive(a,bb,VL(o)))}); cmpS((double)got,e); } same(A,a0,"source"); }
