// Row-wise and column-wise operations of the math engine against their definitions.
#include "mathx.hpp"
#define SZ int r=dim(), c=dim(); mc::shard();
#define V7(nm,...) VAR(#nm,1,im.nm(__VA_ARGS__)),VAR(#nm "_st",0,im.nm##_st(__VA_ARGS__)),VAR(#nm "_mt",2,im.nm##_mt(__VA_ARGS__)),VAR(#nm "_st_cw",0,im.nm##_st_cw(__VA_ARGS__)),VAR(#nm "_st_rw",0,im.nm##_st_rw(__VA_ARGS__)),VAR(#nm "_mt_cw",2,im.nm##_mt_cw(__VA_ARGS__)),VAR(#nm "_mt_rw",2,im.nm##_mt_rw(__VA_ARGS__))
BOTH(byVector){ typedef IMT<R> IM; SZ Cont f=cont(r*c,3),g=contp(); bool div=mc::choose(2); auto va=[&](int i,int j){ return f(i+r*j); }; auto vv=[&](int i){ double v=g(i); return div?(v==0?4.:v>0?2.:-0.5):v; }; auto A=mk<R>(r,c,false,false,va); Vec<R> v(r); for(int i=0;i<r;i++) v[i]=R(vv(i)); ctx("%dx%d",r,c);
	if(div) exec<IM>({V7(mrwDivideByVec,A,(R*)v)}); else exec<IM>({V7(mrwMulByVec,A,(R*)v)});
	cmpM(A,[&](int i,int j){ return div?va(i,j)/vv(i):va(i,j)*vv(i); }); for(int i=0;i<r;i++) CHECK(v[i]==R(vv(i)),"%s: vector changed",g_var); }
BOTH(argmax){ typedef IMT<R> IM; SZ Cont f=cont(r*c,6); auto va=[&](int i,int j){ return f(i+r*j); }; auto A=mk<R>(r,c,false,false,va); auto a0=snap(A); Vec<VL> d(r,VL(-5)); ctx("%dx%d",r,c);
	auto need=[&](IM&im){ return im.template mrwIdxsOfMax_needTempMem<R>(VL(r)); }; VL* D=d;
	std::vector<Var<IM>> v={VARN("mrwIdxsOfMax",1,need(im),im.mrwIdxsOfMax(A,D)),VARN("mrwIdxsOfMax_st",0,need(im),im.mrwIdxsOfMax_st(A,D)),VARN("mrwIdxsOfMax_mt",2,need(im),im.mrwIdxsOfMax_mt(A,D)),VARN("mrwIdxsOfMax_st_cw",0,need(im),im.mrwIdxsOfMax_st_cw(A,D)),VARN("mrwIdxsOfMax_st_rw",0,need(im),im.mrwIdxsOfMax_st_rw(A,D)),VAR("mrwIdxsOfMax_st_rw_small",0,im.mrwIdxsOfMax_st_rw_small(A,D)),VARN("mrwIdxsOfMax_mt_rw",2,need(im),im.mrwIdxsOfMax_mt_rw(A,D))};
	if(c>4) v.push_back(VARN("mrwIdxsOfMax_mt_cw",2,need(im),im.mrwIdxsOfMax_mt_cw(A,D)));
	exec<IM>(v); same(A,a0,"source"); bool first=strstr(g_var,"_st")||strstr(g_var,"_mt_rw");
	for(int i=0;i<r;i++){ int b=0; for(int j=1;j<c;j++) if(va(i,j)>va(i,b)) b=j; int g=(int)d[i]; CHECK(g>=0&&g<c,"%s: row %d: index %d (%d threads) | %s",g_var,i,g,g_W,g_ctx.c_str()); CHECK(va(i,g)==va(i,b),"%s: row %d: element %d is not a greatest one (%d threads) | %s",g_var,i,g,g_W,g_ctx.c_str()); if(first) CHECK(g==b,"%s: row %d: not the first of equal maxima | %s",g_var,i,g_ctx.c_str()); } mc::outcome(mc::hbytes((VL*)d,sizeof(VL)*r)); }
BOTH(rowMax){ typedef IMT<R> IM; SZ Cont f=cont(r*c,6); auto va=[&](int i,int j){ return f(i+r*j); }; auto A=mk<R>(r,c,false,false,va); auto a0=snap(A); Vec<R> d(r); R*D=d; ctx("%dx%d",r,c);
	exec<IM>({VAR("mrwMax",1,im.mrwMax(A,D)),VAR("mrwMax_st",0,im.mrwMax_st(A,D)),VAR("mrwMax_mt",2,im.mrwMax_mt(A,D)),VAR("mrwMax_st_cw",0,im.mrwMax_st_cw(A,D)),VAR("mrwMax_st_rw",0,im.mrwMax_st_rw(A,D)),VAR("mrwMax_st_rw_small",0,im.mrwMax_st_rw_small(A,D)),VAR("mrwMax_mt_rw",2,im.mrwMax_mt_rw(A,D))});
	cmpV(D,r,[&](int i){ double m=va(i,0); for(int j=1;j<c;j++) m=std::max(m,va(i,j)); return m; }); same(A,a0,"source"); }
BOTH(rowSum){ typedef IMT<R> IM; SZ Cont f=cont(r*c); bool ip=mc::choose(2); auto va=[&](int i,int j){ return f(i+r*j); }; auto A=mk<R>(r,c,false,false,va); auto a0=snap(A); Vec<R> d(r); R*D=d; ctx("%dx%d",r,c); std::vector<Var<IM>> v;
	auto need=[&](IM&im){ return im.mrwSum_needTempMem(A); }; auto needi=[&](IM&im){ return im.mrwSum_ip_needTempMem(A); };
	if(ip){ v={VARN("mrwSum_ip",1,needi(im),im.mrwSum_ip(A)),VARN("mrwSum_ip_st",0,needi(im),im.mrwSum_ip_st(A)),VARN("mrwSum_ip_mt",2,needi(im),im.mrwSum_ip_mt(A)),VARN("mrwSum_ip_mt_rw",2,needi(im),im.mrwSum_ip_mt_rw(A))}; if(c>1){ v.push_back(VAR("mrwSum_ip_st_cw",0,im.mrwSum_ip_st_cw(A))); v.push_back(VAR("mrwSum_ip_st_rw",0,im.mrwSum_ip_st_rw(A))); v.push_back(VAR("mrwSum_ip_st_rw_small",0,im.mrwSum_ip_st_rw_small(A))); } if(c>3) v.push_back(VARN("mrwSum_ip_mt_cw",2,needi(im),im.mrwSum_ip_mt_cw(A))); }
	else { v={VARN("mrwSum",1,need(im),im.mrwSum(A,D)),VARN("mrwSum_st",0,need(im),im.mrwSum_st(A,D)),VARN("mrwSum_mt",2,need(im),im.mrwSum_mt(A,D))}; if(c>1){ v.push_back(VAR("mrwSum_st_cw",0,im.mrwSum_st_cw(A,D))); v.push_back(VAR("mrwSum_st_rw",0,im.mrwSum_st_rw(A,D))); v.push_back(VARN("mrwSum_mt_rw",2,need(im),im.mrwSum_mt_rw(A,D))); } if(c>3) v.push_back(VARN("mrwSum_mt_cw",2,need(im),im.mrwSum_mt_cw(A,D))); }
	exec<IM>(v); cmpV(ip?A.data():D,r,[&](int i){ double s=0; for(int j=0;j<c;j++) s+=va(i,j); return s; }); if(!ip) same(A,a0,"source"); else cmpM(A,[&](int i,int j){ return j?va(i,j):(double)A.get(i,0); },0,"other columns"); }
BOTH(rowOr){ typedef IMT<R> IM; SZ Cont f=cont(r*c,6,AL2,2); auto va=[&](int i,int j)->double{ double v=f(i+r*j); return f.code<0?(f.p==0?0.:f.p==1?((int)v%3==0):f.p==2?v:f.p==3?(i+j*r==r*c-1):v>0):v; }; auto A=mk<R>(r,c,false,false,va); auto a0=snap(A); Vec<R> d(r); R*D=d; ctx("%dx%d pattern %d",r,c,f.p); auto need=[&](IM&im){ return im.mrwOr_needTempMem(A); };
	std::vector<Var<IM>> v={VARN("mrwOr",1,need(im),im.mrwOr(A,D)),VARN("mrwOr_st",0,need(im),im.mrwOr_st(A,D)),VARN("mrwOr_mt",2,need(im),im.mrwOr_mt(A,D)),VAR("mrwOr_st_cw",0,im.mrwOr_st_cw(A,D))}; if(c>1){ v.push_back(VAR("mrwOr_st_rw",0,im.mrwOr_st_rw(A,D))); v.push_back(VARN("mrwOr_mt_rw",2,need(im),im.mrwOr_mt_rw(A,D))); } if(c>3) v.push_back(VARN("mrwOr_mt_cw",2,need(im),im.mrwOr_mt_cw(A,D)));
	exec<IM>(v); cmpV(D,r,[&](int i)->double{ for(int j=0;j<c;j++) if(va(i,j)!=0) return 1; return 0; }); same(A,a0,"source"); }
BOTH(rowNorm){ typedef IMT<R> IM; SZ Cont f=cont(r*c); int op=mc::choose(3); bool incl=op==0?true:mc::choose(2); if(!incl&&c<2) return; auto va=[&](int i,int j){ double v=f(i+r*j); if(op==2&&j==0&&v==0) v=1; return v; }; auto A=mk<R>(r,c,false,false,va); auto a0=snap(A); auto nrm=[&](int i){ double s=0; for(int j=0;j<c-(incl?0:1);j++) s+=va(i,j)*va(i,j); return s; }; ctx("op %d %dx%d incl %d",op,r,c,incl); double tol=sizeof(R)==4?1e-5:1e-12;
	if(op==0){ Vec<R> d(r*4); R*D=d; exec<IM>({VARN("mrwL2NormSquared",1,im.mrwL2NormSquared_needTempMem(A),im.mrwL2NormSquared(A,D)),VAR("mrwL2NormSquared_st",0,im.mrwL2NormSquared_st(A,D)),VARN("mrwL2NormSquared_mt",2,im.mrwL2NormSquared_needTempMem(A),im.mrwL2NormSquared_mt(A,D))}); cmpV(D,r,nrm); same(A,a0,"source"); return; }
	static const double MX[]={1,4,9.5}; double mx=MX[mc::choose(3)]; R m=R(mx);
	if(op==1){ exec<IM>({VARN("mCheck_normalize_rows",1,im.mCheck_normalize_rows_needTempMem(A),im.mCheck_normalize_rows(A,m,incl)),VARN("mCheck_normalize_rows_st",0,im.mCheck_normalize_rows_needTempMem(A),im.mCheck_normalize_rows_st(A,m,incl)),VARN("mCheck_normalize_rows_mt",2,im.mCheck_normalize_rows_needTempMem(A),im.mCheck_normalize_rows_mt(A,m,incl))}); }
	else { math::smatrix<R>&S=A; exec<IM>({VARN("mrwSetL2Norm(smatrix)",1,im.mrwSetL2Norm_needTempMem(A),im.mrwSetL2Norm(S,m,incl)),VARN("mrwSetL2Norm",1,im.mrwSetL2Norm_needTempMem(A),im.mrwSetL2Norm(A,m,incl)),VARN("mrwSetL2Norm_st",0,im.mrwSetL2Norm_needTempMem(A),im.mrwSetL2Norm_st(A,m,incl)),VARN("mrwSetL2Norm_mt",2,im.mrwSetL2Norm_needTempMem(A),im.mrwSetL2Norm_mt(A,m,incl))}); }
	CHECK((int)A.cols()==c&&(int)A.rows()==r,"%s: shape not restored",g_var);
	cmpM(A,[&](int i,int j){ double n=nrm(i); return op==1?(n>mx?va(i,j)*std::sqrt(mx/n):va(i,j)):va(i,j)*std::sqrt(mx/n); },tol); if(op==1) for(int i=0;i<r;i++) if(nrm(i)<=mx) for(int j=0;j<c;j++) CHECK(A.get(i,j)==R(va(i,j)),"%s: a row within the limit changed | %s",g_var,g_ctx.c_str()); }
#define NS(nm,...) if(ns) exec<IM>({VAR(#nm,1,(im.template nm<true>(__VA_ARGS__))),VAR(#nm "_st",0,(im.template nm##_st<true>(__VA_ARGS__))),VAR(#nm "_mt",2,(im.template nm##_mt<true>(__VA_ARGS__)))}); else exec<IM>({VAR(#nm,1,(im.template nm<false>(__VA_ARGS__))),VAR(#nm "_st",0,(im.template nm##_st<false>(__VA_ARGS__))),VAR(#nm "_mt",2,(im.template nm##_mt<false>(__VA_ARGS__)))})
BOTH(columns){ typedef IMT<R> IM; SZ Cont f=cont(r*c); int op=mc::choose(6); bool ns=mc::choose(2); auto va=[&](int i,int j){ return f(i+r*j); }; double tol=sizeof(R)==4?1e-6:1e-14; auto A=mk<R>(r,c,false,false,va); auto a0=snap(A); Vec<R> d(c); R*D=d; ctx("op %d %dx%d numstab %d",op,r,c,ns);
	auto mean=[&](int j){ double s=0; for(int i=0;i<r;i++) s+=va(i,j); return s/r; };
	if(op==0){ NS(mcwMean,A,D); cmpV(D,c,mean,tol); same(A,a0,"source"); }
	else if(op==1){ NS(mcwDeMean,A); cmpM(A,[&](int i,int j){ return va(i,j)-mean(j); },tol); }
	else if(op==2){ double cp=mc::choose(2)?2:0; R k=R(cp); NS(mcwDeMeanNZ,A,k); cmpM(A,[&](int i,int j){ double s=0;int n=0; for(int q=0;q<r;q++) if(va(q,j)!=cp){ s+=va(q,j); n++; } return va(i,j)==cp?cp:va(i,j)-(s/n-cp); },tol); }
	else if(op==3){ if(ns) return; Cont g=contp(); for(int j=0;j<c;j++) D[j]=R(g(j)); exec<IM>({VAR("mcwSub_ip",1,im.mcwSub_ip(A,D)),VAR("mcwSub_ip_st",0,im.mcwSub_ip_st(A,D)),VAR("mcwSub_ip_mt",2,im.mcwSub_ip_mt(A,D))}); cmpM(A,[&](int i,int j){ return va(i,j)-g(j); }); }
	else if(op==4){ if(ns) return; Cont g=contp(); auto B=mk<R>(c,c,false,false,[&](int i,int j){ return g(i+c*j); }); auto b0=snap(B); exec<IM>({VAR("mcwMulDiag_ip",1,im.mcwMulDiag_ip(A,B)),VAR("mcwMulDiag_ip_st",0,im.mcwMulDiag_ip_st(A,B)),VAR("mcwMulDiag_ip_mt",2,im.mcwMulDiag_ip_mt(A,B))}); cmpM(A,[&](int i,int j){ return va(i,j)*g(j+c*j); }); same(B,b0,"B"); }
	else { bool bias=mc::choose(2), bir=mc::choose(2); auto B=mk<R>(r,c,bias,bir,va); auto b0=snap(B); if(ns) exec<IM>({VAR("mcwSum",1,(im.template mcwSum<true>(B,D)))}); else exec<IM>({VAR("mcwSum",1,(im.template mcwSum<false>(B,D)))}); cmpV(D,c,[&](int j){ double s=0; for(int i=0;i<r;i++) s+=va(i,j); return s; }); same(B,b0,"source"); } }
// ---- k best elements of every column over a sequence of batches, with aggregation
template<class R,template<class>class O,bool Dist,int Sg> static void korder(){ typedef IMT<R> IM; typedef math::mcwFindKOrdered_hlpr<R,O> H; typedef typename H::hlprmtx_t HM;
	int k=1+mc::choose(mc::thorough()?4:3), nb=1+mc::choose(3), c=mc::choose(2)?(nb==1?3:2):1; mc::shard(); bool bias=mc::choose(2); static const int ws[]={1,3}; int W=ws[c>1?mc::choose(2):0], flip=c>1?mc::choose(2):0; int vals=nb==1||(nb==2&&mc::thorough()&&k<4)?4:3; static const double AL[]={1,2,3,4};
	HM hl(H::hlprmtx_size_for(VL(k),VL(c))); CHECK((int)H::get_k(hl)==k,"k %d",k); typename H::Aggregator ag; std::vector<std::vector<std::vector<double>>> all; bool agok=true; ctx("k=%d batches=%d cols=%d",k,nb,c); g_var="mcwFindKOrdered";
	for(int b=0;b<nb;b++){ int r= nb==3?1+mc::choose(2):1+mc::choose(3); int n1=r; long tot=1; for(int i=0;i<n1;i++) tot*=vals; long code=mc::choose((int)tot); auto va=[&](int i,int j){ long q=code; int kk=flip&&j?r-1-i:i; while(kk--) q/=vals; int x=(int)(q%vals); return Sg*AL[(x+j)%vals]; };
		auto S=mk<R>(r,c,bias,false,va); auto s0=snap(S); all.emplace_back(); for(int j=0;j<c;j++){ all.back().emplace_back(); for(int i=0;i<r;i++) all.back()[j].push_back(va(i,j)); }
		{ g_W=W; IM im; im.preinit(0); im.init(); 
		if(Dist&&Sg>0) im.template mcwFindKBiggestDistinct<R>(S,hl,b>0); else if(Dist) im.template mcwFindKSmallestDistinct<R>(S,hl,b>0); else if(Sg>0) im.template mcwFindKBiggest<R>(S,hl,b>0); else im.template mcwFindKSmallest<R>(S,hl,b>0); mc::op(); }
		same(S,s0,"source"); uint64_t h=3;
		for(int j=0;j<c;j++){ std::vector<double> ev; for(auto&B:all) for(double v:B[j]) ev.push_back(v*Sg); std::sort(ev.rbegin(),ev.rend()); if(Dist) ev.erase(std::unique(ev.begin(),ev.end()),ev.end()); if((int)ev.size()>k) ev.resize(k); if((int)ev.size()<k&&b==0) agok=false;
			auto pH=hl.colDataAsVec(VL(j)); auto pI=H::get_idxs_ptr_from_column_ptr(pH,VL(k)); auto pV=H::get_cache_ptr_from_column_ptr(pH,VL(k)); std::vector<int> used;
			for(int q=0;q<(int)ev.size();q++){ double v=pV[k-1-q]*Sg; int x=(int)pI[k-1-q]; h=mc::hmix(h,(uint64_t)(v*8)); h=mc::hmix(h,x+1); CHECK(v==ev[q],"batch %d column %d: place %d holds %g, must be %g | %s",b,j,q,v*Sg,ev[q]*Sg,g_ctx.c_str());
				if(x!=-1){ CHECK(x>=0&&x<r&&va(x,j)*Sg==v,"batch %d column %d: index %d does not refer to value %g | %s",b,j,x,v*Sg,g_ctx.c_str()); CHECK(std::find(used.begin(),used.end(),x)==used.end(),"index %d twice | %s",x,g_ctx.c_str()); used.push_back(x); }
				else { CHECK(b>0,"first batch leaves index unset | %s",g_ctx.c_str()); int have=0,old=0; for(int bb=0;bb<b;bb++) for(double w:all[bb][j]) if(w*Sg==v) have++; for(int q2=0;q2<(int)ev.size();q2++) if(pV[k-1-q2]*Sg==v&&(int)pI[k-1-q2]==-1) old++; CHECK(old<=have,"more stale entries of value %g than there were | %s",v*Sg,g_ctx.c_str()); } } }
		mc::state(mc::hmix(h,mc::hmix(k*100+b,c*2+bias))); mc::outcome(h);
		if(agok){ bool ok=ag.aggregate(hl,b); CHECK(ok,"aggregate failed"); math::smatrix<R> ex; CHECK(ag.export_values(ex)&&(int)ex.rows()==k&&(int)ex.cols()==c,"export"); auto in=ag.batches_in_use(nb); std::vector<std::vector<std::pair<int,int>>> src(c,std::vector<std::pair<int,int>>(k,{-1,-1}));
			for(int bb=0;bb<=b;bb++){ bool any=false; CHECK(ag.for_batchIdx(bb,[&](VL cc,VL rr,R v,VL ix)->bool{ any=true; CHECK((int)cc<c&&(int)rr<k,"aggregate position"); CHECK(src[cc][rr].first<0,"position (%d,%d) reported for two batches | %s",(int)rr,(int)cc,g_ctx.c_str()); src[cc][rr]={bb,(int)ix}; CHECK(v==ex.get(rr,cc),"aggregate value"); return true; }),"for_batchIdx stopped"); CHECK(any==in[bb],"batches_in_use[%d] is %d | %s",bb,(int)in[bb],g_ctx.c_str()); }
			for(int j=0;j<c;j++){ std::vector<double> ev; for(auto&B:all) for(double v:B[j]) ev.push_back(v*Sg); std::sort(ev.rbegin(),ev.rend()); if(Dist) ev.erase(std::unique(ev.begin(),ev.end()),ev.end());
				for(int q=0;q<k;q++){ CHECK(ex.get(VL(q),VL(j))*Sg==ev[q],"aggregate after batch %d column %d place %d: %g, must be %g | %s",b,j,q,(double)ex.get(VL(q),VL(j)),ev[q]*Sg,g_ctx.c_str()); auto s=src[j][q]; CHECK(s.first>=0&&s.second>=0&&s.second<(int)all[s.first][j].size(),"aggregate source (%d,%d) | %s",s.first,s.second,g_ctx.c_str()); CHECK(all[s.first][j][s.second]*Sg==ev[q],"aggregate after batch %d column %d place %d: source (batch %d, row %d) holds %g, not %g | %s",b,j,q,s.first,s.second,all[s.first][j][s.second],ev[q]*Sg,g_ctx.c_str()); for(int q2=0;q2<q;q2++) CHECK(src[j][q2]!=s,"one sample reported twice | %s",g_ctx.c_str()); } } } } }
BOTH(kBiggestDistinct){ korder<R,math::Order_BiggestDistinct,true,1>(); }
BOTH(kBiggest){ korder<R,math::Order_Biggest,false,1>(); }
BOTH(kSmallestDistinct){ korder<R,math::Order_SmallestDistinct,true,-1>(); }
BOTH(kSmallest){ korder<R,math::Order_Smallest,false,-1>(); }
