// Element-wise arithmetic of the math engine against its definitions.
#include "mathx.hpp"
#define SZ int r=dim(), c=dim(); mc::shard();
// two operand contents: all combinations for tiny matrices, patterns otherwise
struct AB{ Cont a,b; AB(int n){ a=cont(n,2); b=n<=2?cont(n,2):contp(); } };
#define V3(nm,...) VAR(#nm,1,im.nm(__VA_ARGS__)),VAR(#nm "_st",0,im.nm##_st(__VA_ARGS__)),VAR(#nm "_mt",2,im.nm##_mt(__VA_ARGS__))
static const double SC[]={0.5,-2,1};
static double sgn(double x){ return x>0?1:x<0?-1:0; }
BOTH(binaryInPlace){ typedef IMT<R> IM; SZ int n=r*c; AB f(n); auto va=[&](int i,int j){ return f.a(i+r*j); }; auto vb=[&](int i,int j){ return f.b(i+r*j)*0.5; };
	auto A=mk<R>(r,c,false,false,va), B=mk<R>(r,c,false,false,vb); auto b0=snap(B); int op=mc::choose(9); double s=op>=3&&op<=6?SC[mc::choose(3)]:0; R k=R(s); ctx("op %d %dx%d",op,r,c); std::function<double(double,double)> e;
	switch(op){
	case 0: exec<IM>({V3(evMul_ip,A,B)}); e=[](double a,double b){ return a*b; }; break;
	case 1: exec<IM>({V3(evAdd_ip,A,B),VAR("vAdd_ip",1,im.vAdd_ip(A.data(),B.data(),A.numel())),VAR("vAdd_ip_st",0,im.vAdd_ip_st(A.data(),B.data(),A.numel())),VAR("vAdd_ip_mt",2,im.vAdd_ip_mt(A.data(),B.data(),A.numel()))}); e=[](double a,double b){ return a+b; }; break;
	case 2: exec<IM>({VAR("evSub_ip",1,im.evSub_ip(A,B)),VAR("evSub_ip_st_naive",0,im.evSub_ip_st_naive(A,B)),VAR("evSub_ip_mt_naive",2,im.evSub_ip_mt_naive(A,B))}); e=[](double a,double b){ return a-b; }; break;
	case 3: exec<IM>({V3(evAddScaled_ip,A,k,B)}); e=[&](double a,double b){ return a+s*b; }; break;
	case 4: exec<IM>({V3(evNZAddScaled_ip,A,k,B)}); e=[&](double a,double b){ return a==0?0:a+s*b; }; break;
	case 5: exec<IM>({V3(evAddScaledSign_ip,A,k,B)}); e=[&](double a,double b){ return a+s*sgn(b); }; break;
	case 6: exec<IM>({V3(evNZAddScaledSign_ip,A,k,B)}); e=[&](double a,double b){ return a==0?0:a+s*sgn(b); }; break;
	case 7: exec<IM>({V3(evSign,A,B)}); e=[&](double,double b){ return sgn(b); }; break;
	case 8: { bool sq=mc::choose(2); if(sq) exec<IM>({V3(evSquare,A,B)}); else exec<IM>({V3(evAbs,A,B)}); e=[sq](double,double b){ return sq?b*b:std::fabs(b); }; } break; }
	cmpM(A,[&](int i,int j){ return e(va(i,j),vb(i,j)); }); same(B,b0,"second operand"); }
BOTH(biasedInPlace){ typedef IMT<R> IM; SZ int n=r*c; AB f(n); bool bias=mc::choose(2); auto va=[&](int i,int j){ return f.a(i+r*j); }; auto vb=[&](int i,int j){ return f.b(i+r*j)*0.5; };
	auto A=mk<R>(r,c,bias,false,va), B=mk<R>(r,c,false,false,vb); auto b0=snap(B); int op=mc::choose(3); ctx("op %d %dx%d bias %d",op,r,c,bias); std::function<double(double,double)> e;
	if(op==0){ exec<IM>({V3(evMul_ip_Anb,A,B)}); e=[](double a,double b){ return a*b; }; } else if(op==1){ exec<IM>({V3(evAdd_Anb_ip,A,B)}); e=[](double a,double b){ return a+b; }; }
	else { double s=SC[mc::choose(3)]; auto M=mk<R>(r,c,false,false,vb); auto m0=snap(M); exec<IM>({V3(evSubMtxMulC_ip_nb,A,M,R(s))}); e=[s](double a,double b){ return (a-b)*s; }; same(M,m0,"second operand"); }
	cmpM(A,[&](int i,int j)->double{ return j<c?e(va(i,j),vb(i,j)):1; }); same(B,b0,"second operand"); }
BOTH(constInPlace){ typedef IMT<R> IM; SZ bool bir=mc::choose(2); int bm=mc::choose(3); bool bias=bm==2, ign=bm>0; Cont f=cont(r*c); auto va=[&](int i,int j){ return f(i+r*j); }; auto A=mk<R>(r,c,bias,bir,va); int op=mc::choose(3); R s=R(SC[mc::choose(3)]),o=R(0.25); ctx("op %d %dx%d bir %d bias %d ignore %d",op,r,c,bir,bias,ign); std::function<double(double)> e; std::vector<Var<IM>> v;
	if(op==0){ v={VAR("evMulCAddC_ip",1,im.evMulCAddC_ip(A,s,o,ign)),VAR("evMulCAddC_ip_st",0,im.evMulCAddC_ip_st(A,s,o,ign)),VAR("evMulCAddC_ip_mt",2,im.evMulCAddC_ip_mt(A,s,o,ign))}; if(ign) v.push_back(VAR("evMulCAddC_ip_nb",1,im.evMulCAddC_ip_nb(A,s,o))); e=[=](double a){ return a*s+o; }; }
	else if(op==1){ v={VAR("evMulC_ip",1,im.evMulC_ip(A,s,ign)),VAR("evMulC_ip_st",0,im.evMulC_ip_st(A,s,ign)),VAR("evMulC_ip_mt",2,im.evMulC_ip_mt(A,s,ign))}; if(ign) v.push_back(VAR("evMulC_ip_nb",1,im.evMulC_ip_nb(A,s))); if(!bias){ v.push_back(VAR("evMulC_ip(ptr)",1,im.evMulC_ip(A.data(),A.numel(),s))); v.push_back(VAR("evMulC_ip_st(ptr)",0,im.evMulC_ip_st(A.data(),A.numel(),s))); v.push_back(VAR("evMulC_ip_mt(ptr)",2,im.evMulC_ip_mt(A.data(),A.numel(),s))); } e=[=](double a){ return a*s; }; }
	else { v={VAR("evAddC_ip",1,im.evAddC_ip(A,s,ign)),VAR("evAddC_ip_st",0,im.evAddC_ip_st(A,s,ign)),VAR("evAddC_ip_mt",2,im.evAddC_ip_mt(A,s,ign))}; if(ign) v.push_back(VAR("evAddC_ip_nb",1,im.evAddC_ip_nb(A,s))); e=[=](double a){ return a+s; }; }
	exec<IM>(v); cmpM(A,[&](int i,int j)->double{ return i<r&&j<c?e(va(i,j)):1; }); CHECK(A.emulatesBiases()==bias,"flags"); }
BOTH(subAndOthers){ typedef IMT<R> IM; SZ int n=r*c; AB f(n); auto va=[&](int i,int j){ return f.a(i+r*j); }; auto vb=[&](int i,int j){ return f.b(i+r*j)*0.5; }; int op=mc::choose(5); ctx("op %d %dx%d",op,r,c);
	auto A=mk<R>(r,c,false,false,va), B=mk<R>(r,c,false,false,vb); auto a0=snap(A),b0=snap(B);
	if(op==0){ auto C=mkj<R>(r,c); exec<IM>({VAR("evSub",1,im.evSub(A,B,C)),VAR("evSub_st_naive",0,im.evSub_st_naive(A,B,C)),VAR("evSub_mt_naive",2,im.evSub_mt_naive(A,B,C))}); cmpM(C,[&](int i,int j){ return va(i,j)-vb(i,j); }); same(A,a0,"A"); same(B,b0,"B"); }
	else if(op==1){ R m=R(0.5); exec<IM>({V3(evMulC_ip_Sub_ip,A,m,B)}); cmpM(A,[&](int i,int j){ return va(i,j)*0.5; },0,"velocity"); cmpM(B,[&](int i,int j){ return vb(i,j)-va(i,j)*0.5; },0,"weights"); }
	else if(op==2){ R m=R(0.25); exec<IM>({V3(apply_momentum,A,m,B)}); cmpM(A,[&](int i,int j){ return va(i,j)*0.25+vb(i,j); }); same(B,b0,"gradient"); }
	else if(op==3){ bool bias=mc::choose(2), gb=mc::choose(2); auto G=mk<R>(r,c,bias,false,[&](int i,int j){ return va(i,j)>0; }); auto g0=snap(G); auto C=mkj<R>(r,c,gb); exec<IM>({V3(evOneCompl,G,C)}); cmpM(C,[&](int i,int j)->double{ return j<c?(va(i,j)>0?0:1):1; }); same(G,g0,"gate"); }
	else { double lo=-1,hi=mc::choose(2)?1:2.5; exec<IM>({V3(evClamp,A,R(lo),R(hi))}); cmpM(A,[&](int i,int j){ return std::min(std::max(va(i,j),lo),hi); }); } }
BOTH(dropout){ typedef IMT<R> IM; SZ Cont f=contp(); auto va=[&](int i,int j){ return f(i+r*j); }; double p=mc::choose(2)?0.5:0.25; static const double U[]={0,0.25,0.5,0.75,1}; bool full=r*c<=3; long code=full?mc::choose(r*c==1?5:r*c==2?25:125):mc::choose(3); auto u=[&](int i,int j){ int k=i+r*j; if(full){ long q=code; while(k--) q/=5; return U[q%5]; } return U[(k*(code+1)+code)%5]; };
	int op=mc::choose(3); bool bias=op==1?(bool)mc::choose(2):true; auto A=mk<R>(r,c,bias,false,va); auto M=mk<R>(r,c,false,false,u); auto m0=snap(M); ctx("op %d %dx%d keep %g",op,r,c,p);
	if(op==0){ exec<IM>({V3(make_dropout,A,R(p),M)}); cmpM(A,[&](int i,int j)->double{ return j<c?(u(i,j)<p?va(i,j)/p:0):1; },0,"activations"); cmpM(M,[&](int i,int j){ return u(i,j)<p?1/p:0.; },0,"mask"); }
	else if(op==1){ exec<IM>({V3(apply_dropout_mask,A,R(p),M)}); cmpM(A,[&](int i,int j)->double{ return j<c?(u(i,j)<p?va(i,j):0):1; },0,"values"); same(M,m0,"mask"); }
	else { R a=R(2),b=R(0.5),d=R(-4); exec<IM>({V3(make_alphaDropout,A,R(p),a,b,d,M)}); cmpM(A,[&](int i,int j)->double{ return j<c?(u(i,j)<p?2*va(i,j)+0.5:-4):1; },0,"activations"); cmpM(M,[&](int i,int j){ return u(i,j)<p?2.:0.; },0,"mask"); } }
BOTH(ilr){ typedef IMT<R> IM; SZ int n=r*c; AB f(n); static const double G[]={0.25,1,4,8}; int gp=mc::choose(4); auto va=[&](int i,int j){ return f.a(i+r*j); }; auto vb=[&](int i,int j){ return f.b(i+r*j); }; auto vg=[&](int i,int j){ return G[(i+j+gp)%4]; };
	auto A=mk<R>(r,c,false,false,va), B=mk<R>(r,c,false,false,vb), Gn=mk<R>(r,c,false,false,vg); auto b0=snap(B); R dec=R(0.5),inc=R(2),lo=R(0.25),hi=R(8); ctx("%dx%d gains %d",r,c,gp);
	auto need=[&](IM&im){ return im.template apply_ILR_needTempMem<R>(A.size()); };
	exec<IM>({VARN("apply_ILR",1,need(im),im.apply_ILR(A,B,Gn,dec,inc,lo,hi)),VAR("apply_ILR_st_naive",0,im.apply_ILR_st_naive(A,B,Gn,dec,inc,lo,hi)),VAR("apply_ILR_mt_naive",2,im.apply_ILR_mt_naive(A,B,Gn,dec,inc,lo,hi)),VARN("apply_ILR_st_vec",0,need(im),im.apply_ILR_st_vec(A,B,Gn,dec,inc,lo,hi)),VARN("apply_ILR_mt_vec",2,need(im),im.apply_ILR_mt_vec(A,B,Gn,dec,inc,lo,hi))});
	auto g1=[&](int i,int j){ double p=va(i,j)*vb(i,j),g=vg(i,j); return p>0&&g<8?g*2:p<0&&g>0.25?g*0.5:g; }; cmpM(Gn,g1,0,"gain"); cmpM(A,[&](int i,int j){ return va(i,j)*g1(i,j); },0,"gradient"); same(B,b0,"previous gradient"); }
BOTH(sums){ typedef IMT<R> IM; SZ Cont f=cont(r*c); auto va=[&](int i,int j){ return f(i+r*j); }; auto A=mk<R>(r,c,false,false,va); auto a0=snap(A); int op=mc::choose(3); R g=R(-5); ctx("op %d %dx%d",op,r,c); double e=0;
	if(op==0){ exec<IM>({VAR("vSumAbs",1,g=im.vSumAbs(A)),VAR("vSumAbs_st",0,g=im.vSumAbs_st(A)),VAR("vSumAbs_mt",2,g=im.vSumAbs_mt(A))}); for(int k=0;k<r*c;k++) e+=std::fabs(f(k)); }
	else if(op==1){ exec<IM>({VAR("ewSumSquares",1,g=im.ewSumSquares(A)),VAR("ewSumSquares_st",0,g=im.ewSumSquares_st(A)),VAR("ewSumSquares_mt",2,g=im.ewSumSquares_mt(A)),VAR("ewSumSquares(ptr)",1,g=im.ewSumSquares(A.data(),A.numel())),VAR("ewSumSquares_mt(ptr)",2,g=im.ewSumSquares_mt(A.data(),A.numel())),VAR("ewSumSquares_ns",1,g=im.ewSumSquares_ns(A)),VAR("ewSumSquares_st_ns",0,g=im.ewSumSquares_st_ns(A)),VAR("ewSumSquares_mt_ns",2,g=im.ewSumSquares_mt_ns(A)),VAR("ewSumSquares_ns(ptr)",1,g=im.ewSumSquares_ns(A.data(),A.numel())),VAR("ewSumSquares_mt_ns(ptr)",2,g=im.ewSumSquares_mt_ns(A.data(),A.numel()))}); for(int k=0;k<r*c;k++) e+=f(k)*f(k); }
	else { Cont h=contp(); auto B=mk<R>(r,c,false,false,[&](int i,int j){ return h(i+r*j)*0.5; }); auto b0=snap(B); exec<IM>({VAR("ewSumProd",1,g=im.ewSumProd(A,B)),VAR("ewSumProd_st",0,g=im.ewSumProd_st(A,B)),VAR("ewSumProd_mt",2,g=im.ewSumProd_mt(A,B))}); for(int k=0;k<r*c;k++) e+=f(k)*h(k)*0.5; same(B,b0,"B"); }
	cmpS(g,e); same(A,a0,"source"); }
BOTH(triang){ typedef IMT<R> IM; int n=1+mc::choose(7); mc::shard(); Cont f=contp(); int v=mc::choose(4); auto A=mk<R>(n,n,false,false,[&](int i,int j){ return f(i+n*j); }); auto a0=snap(A); R g=R(-1); ctx("n=%d %s",n,v&1?"lower":"upper");
	#define TR(L,N) exec<IM>({VAR("ewSumSquaresTriang",1,(g=im.template ewSumSquaresTriang<L,N>(A))),VAR("ewSumSquaresTriang_st",0,(g=im.template ewSumSquaresTriang_st<L,N>(A))),VAR("ewSumSquaresTriang_mt",2,(g=im.template ewSumSquaresTriang_mt<L,N>(A)))})
	if(n<2) return; if(v==0) TR(false,false); else if(v==1) TR(true,false); else if(v==2) TR(false,true); else TR(true,true);
	double e=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(v&1?i>j:i<j) e+=f(i+n*j)*f(i+n*j); cmpS(g,e); same(A,a0,"source"); }
BOTH(countNZ){ typedef IMT<R> IM; int n=1+mc::choose(5); mc::shard(); static const double Z[]={0.,-0.,1,-1e-37}; long tot=1; for(int i=0;i<n;i++) tot*=4; int code=mc::choose((int)tot); Vec<R> v(n); int nz=0,nzs=0; long q=code; for(int i=0;i<n;i++){ v[i]=R(Z[q%4]); if(Z[q%4]!=0) nz++; if(!(q%4==0)) nzs++; q/=4; } numel_cnt_t g=-1; ctx("n=%d code %d",n,code);
	exec<IM>({VAR("vCountNonZeros",1,g=im.vCountNonZeros((R*)v,n)),VAR("vCountNonZerosStrict",1,g=im.vCountNonZerosStrict((R*)v,n))}); bool strict=strstr(g_var,"Strict");
	cmpS((double)g,strict?nzs:nz); }
