// Matrix products of the layers, covariance, DeCov, SVD orthogonalisation.
#include "mathx.hpp"
static int d3(){ static const int q[]={1,2,3,5}, t[]={1,2,3,4,5,8,9}; return mc::thorough()?t[mc::choose(7)]:q[mc::choose(4)]; }
static double v1(int p,int k){ return pat(p,k); }
template<class R> static double tol(){ return sizeof(R)==4?2e-5:1e-12; }
#define D3 int m=d3(), n=d3(), k=d3(); mc::shard(); int pa=mc::choose(3), pb=mc::choose(3);
// A[m,k]*B[k,n]
BOTH(mulAB){ typedef IMT<R> IM; D3 bool ba=mc::choose(2); auto fa=[&](int i,int j){ return v1(pa,i+j*m); }; auto fb=[&](int i,int j){ return v1(pb+1,i*2+j*3); };
	auto A=mk<R>(m,k,false,false,fa), B=mk<R>(k,n,false,false,fb), C=mkj<R>(m,n); ctx("A %dx%d B %dx%d pat %d,%d",m,k,k,n,pa,pb); auto a0=snap(A),b0=snap(B); (void)ba;
	exec<IM>({VAR("mMulAB_C",0,im.mMulAB_C(A,B,C))}); cmpM(C,[&](int i,int j){ double s=0; for(int q=0;q<k;q++) s+=fa(i,q)*fb(q,j); return s; },tol<R>()); same(A,a0,"A"); same(B,b0,"B"); }
// C(no bias)=A*B'
BOTH(mulABt){ typedef IMT<R> IM; D3 bool bias=mc::choose(2); auto fa=[&](int i,int j){ return v1(pa,i+j*m); }; auto fb=[&](int i,int j){ return v1(pb+1,i*2+j*3); };
	auto A=mk<R>(m,k,false,false,fa), B=mk<R>(n,k,false,false,fb), C=mkj<R>(m,n,bias); ctx("A %dx%d B %dx%d bias %d pat %d,%d",m,k,n,k,bias,pa,pb); auto a0=snap(A),b0=snap(B);
	exec<IM>({VAR("mMulABt_Cnb",0,im.mMulABt_Cnb(A,B,C))}); cmpM(C,[&](int i,int j){ if(j==n) return 1.; double s=0; for(int q=0;q<k;q++) s+=fa(i,q)*fb(j,q); return s; },tol<R>()); same(A,a0,"A"); same(B,b0,"B"); }
BOTH(mulAtB){ typedef IMT<R> IM; D3 double al[]={1,0.5,-2}; double a=al[mc::choose(3)]; auto fa=[&](int i,int j){ return v1(pa,i+j*k); }; auto fb=[&](int i,int j){ return v1(pb+1,i*2+j*3); };
	auto A=mk<R>(k,m,false,false,fa), B=mk<R>(k,n,false,false,fb), C=mkj<R>(m,n); ctx("A %dx%d B %dx%d alpha %g",k,m,k,n,a); auto a0=snap(A),b0=snap(B);
	exec<IM>({VAR("mScaledMulAtB_C",0,im.mScaledMulAtB_C(R(a),A,B,C))}); cmpM(C,[&](int i,int j){ double s=0; for(int q=0;q<k;q++) s+=fa(q,i)*fb(q,j); return a*s; },tol<R>()); same(A,a0,"A"); same(B,b0,"B"); }
// element of a sample matrix in either layout
template<class M> static double smp(const M&X,int b,int f){ return (double)(X.bBatchInRow()?X.get(VL(f),VL(b)):X.get(VL(b),VL(f))); }
// every (batch m, features) matrix in either layout, with or without bias
template<class R,class F> static Mx<R> sm(int m,int f,bool bias,bool bir,F&&v){ return bir?mk<R>(f,m,bias,true,[&](int i,int j){ return v(j,i); }):mk<R>(m,f,bias,false,v); }
template<class R> static void cmpS2(const Mx<R>&X,int m,int f,std::function<double(int,int)> e){ for(int b=0;b<m;b++) for(int i=0;i<f;i++){ mc::C().checks++; double g=smp(X,b,i); if(!near(g,(double)(R)e(b,i),tol<R>())) mc::fail("%s: sample %d value %d is %g, must be %g | %s",g_var,b,i,g,e(b,i),g_ctx.c_str()); if((b+i)==0) mc::outcome(mc::hmix((uint64_t)(long)(g*16),m*100+f)); } }
// act = prevAct * weights', bias weights in the last column
BOTH(fprop){ typedef IMT<R> IM; D3 bool pr=mc::choose(2), ar=mc::choose(2), ab=mc::choose(2); bool hole=!pr&&mc::choose(2); int p=k; auto fp=[&](int b,int j){ return v1(pa,b+j*m); }; auto fw=[&](int i,int j){ return v1(pb+1,i*2+j*3); };
	auto P=sm<R>(m,p,true,pr,fp); auto W=mk<R>(n,p+1,false,false,fw), A=mkj<R>(ar?n:m,ar?m:n,ab,ar); if(hole){ P.get(0,VL(p))=R(0); P.holey_biases(true); } ctx("batch %d in %d out %d prevAct %s act %s%s hole %d",m,p,n,pr?"BiR":"BiC",ar?"BiR":"BiC",ab?" biased":"",hole); auto p0=snap(P),w0=snap(W);
	exec<IM>({VAR("mMul_prevAct_weights_2_act",0,im.mMul_prevAct_weights_2_act(P,W,A))}); cmpS2<R>(A,m,n,[&](int b,int o){ double s=hole&&b==0?0:fw(o,p); for(int q=0;q<p;q++) s+=fp(b,q)*fw(o,q); return s; }); same(P,p0,"previous activations"); same(W,w0,"weights"); if(ab) CHECK(A.test_biases_strict(),"%s: biases of the activations touched | %s",g_var,g_ctx.c_str()); }
BOTH(bpropA){ typedef IMT<R> IM; D3 bool pr=mc::choose(2); int p=k; auto fd=[&](int b,int j){ return v1(pa,b+j*m); }; auto fw=[&](int i,int j){ return v1(pb+1,i*2+j*3); };
	auto D=mk<R>(m,n,false,false,fd), W=mk<R>(n,p+1,false,false,fw), P=mkj<R>(pr?p:m,pr?m:p,false,pr); ctx("batch %d in %d out %d dLdAPrev %s",m,p,n,pr?"BiR":"BiC"); auto d0=snap(D),w0=snap(W);
	exec<IM>({VAR("mMul_dLdZ_weights_2_dLdAPrev",0,im.mMul_dLdZ_weights_2_dLdAPrev(D,W,P))}); cmpS2<R>(P,m,p,[&](int b,int i){ double s=0; for(int o=0;o<n;o++) s+=fd(b,o)*fw(o,i); return s; }); same(D,d0,"dLdZ"); CHECK((int)W.rows()==n&&(int)W.cols()==p+1,"weights must be restored to %dx%d, are %dx%d",n,p+1,(int)W.rows(),(int)W.cols()); same(W,w0,"weights"); }
BOTH(bpropW){ typedef IMT<R> IM; D3 bool pr=mc::choose(2); double al[]={1,0.25,-3}; double sc=al[mc::choose(3)]; int p=k; auto fd=[&](int b,int j){ return v1(pa,b+j*m); }; auto fp=[&](int b,int j){ return v1(pb+1,b*2+j*3); };
	auto D=mk<R>(m,n,false,false,fd), P=sm<R>(m,p,true,pr,fp), W=mkj<R>(n,p+1); ctx("batch %d in %d out %d prevAct %s scale %g",m,p,n,pr?"BiR":"BiC",sc); auto d0=snap(D),p0=snap(P);
	exec<IM>({VAR("mMulScaled_dLdZ_prevAct_2_dLdW",0,im.mMulScaled_dLdZ_prevAct_2_dLdW(R(sc),D,P,W))}); cmpM(W,[&](int o,int i){ double s=0; for(int b=0;b<m;b++) s+=fd(b,o)*(i==p?1:fp(b,i)); return sc*s; },tol<R>()); same(D,d0,"dLdZ"); same(P,p0,"previous activations"); }
// covariance (A'A/rows), one triangle
BOTH(cov){ typedef IMT<R> IM; int r=dim(), c=dim(); mc::shard(); if(c<2) throw mc::Skip(); int pa=mc::choose(NPAT), lower=mc::choose(2); auto fa=[&](int i,int j){ return v1(pa,i+j*r); }; auto A=mk<R>(r,c,false,false,fa), C=mkj<R>(c,c); ctx("%dx%d lower %d pat %d",r,c,lower,pa); auto a0=snap(A);
	exec<IM>({VAR("mColumnsCov(bool)",0,im.mColumnsCov(A,C,!!lower)),VAR("mColumnsCov<bool>",0,if(lower) im.template mColumnsCov<true>(A,C); else im.template mColumnsCov<false>(A,C))});
	for(int i=0;i<c;i++) for(int j=0;j<c;j++) if(lower?i>=j:i<=j){ double s=0; for(int q=0;q<r;q++) s+=fa(q,i)*fa(q,j); cmpS(C.get(VL(i),VL(j)),s/r,tol<R>(),"covariance"); } same(A,a0,"A"); }
// DeCov loss and its gradient (the gradient is the derivative of exactly that loss)
BOTH(decov){ typedef IMT<R> IM; int r=dim(), c=dim(); mc::shard(); if(c<2) throw mc::Skip(); int pa=mc::choose(NPAT); int tr=mc::choose(4), op=mc::choose(3); bool bias=op<2&&mc::choose(2); double sc=op&&mc::choose(2)?0.25:1; auto fa=[&](int i,int j){ return v1(pa,i+j*r)*0.5; };
	auto A=mk<R>(r,c,bias,false,fa), G=mkj<R>(r,c); ctx("%dx%d bias %d triangle %d numstab %d scale %g pat %d",r,c,bias,tr&1,tr>>1,sc,pa); auto a0=snap(A); R g=-77;
	std::vector<double> mu(c); for(int j=0;j<c;j++){ for(int i=0;i<r;i++) mu[j]+=fa(i,j); mu[j]/=r; } auto dm=[&](int i,int j){ return fa(i,j)-mu[j]; }; auto cv=[&](int a,int b){ double s=0; for(int q=0;q<r;q++) s+=dm(q,a)*dm(q,b); return s/r; };
	std::vector<double> cc(c*c); for(int i=0;i<c;i++) for(int j=0;j<c;j++) cc[i*c+j]=cv(i,j); auto gr=[&](int i,int j){ double s=0; for(int q=0;q<c;q++) if(q!=j) s+=2*cc[j*c+q]*dm(i,q)/r; return sc*s/(c-1); }; auto sz=math::smatrix_td::mtx_size_t(VL(r),VL(c));
	#define TR(f,...) switch(tr){ case 0: f<false,false>(__VA_ARGS__); break; case 1: f<true,false>(__VA_ARGS__); break; case 2: f<false,true>(__VA_ARGS__); break; default: f<true,true>(__VA_ARGS__); }
	if(op==0){ exec<IM>({VARN("loss_deCov",1,im.loss_DeCov_needTempMem(false,sz),TR(g=im.template loss_deCov,A))}); double s=0; for(int i=0;i<c;i++) for(int j=i+1;j<c;j++) s+=cc[i*c+j]*cc[i*c+j]; cmpS(g,s/(c-1),tol<R>()*4); same(A,a0,"values"); }
	else if(op==1){ exec<IM>({VARN("dLoss_deCov",1,im.loss_DeCov_needTempMem(true,sz),TR(im.template dLoss_deCov,A,G,R(sc)))}); cmpM(G,gr,tol<R>()*4); same(A,a0,"values"); }
	else { exec<IM>({VARN("dLoss_deCov_ip",1,im.loss_DeCov_needTempMem(true,sz),TR(im.template dLoss_deCov_ip,A,R(sc)))}); cmpM(A,gr,tol<R>()*4); } }
// SVD orthogonalisation: orthonormal columns (rows when wide) spanning the same space
BOTH(svd){ typedef IMT<R> IM; int r=dim(), c=dim(); mc::shard(); int pa=mc::choose(4); int seed=pa*7+1; auto fa=[&](int i,int j){ unsigned h=(unsigned)(i*131+j*1009+seed*977)*2654435761u; h^=h>>13; h*=0x85ebca6bu; h^=h>>16; return ((int)(h%2001)-1000)/500.; }; auto A=mk<R>(r,c,false,false,fa); ctx("%dx%d variant %d",r,c,pa); bool ok=false;
	exec<IM>({VAR("mSVD_Orthogonalize_ss",0,ok=im.mSVD_Orthogonalize_ss(A))}); CHECK(ok,"SVD failed | %s",g_ctx.c_str()); bool tall=r>=c; int q=tall?c:r, L=tall?r:c; auto el=[&](int i,int v){ return (double)(tall?A.get(VL(i),VL(v)):A.get(VL(v),VL(i))); }; double t=sizeof(R)==4?2e-4:1e-11;
	for(int a=0;a<q;a++) for(int b=0;b<q;b++){ double s=0; for(int i=0;i<L;i++) s+=el(i,a)*el(i,b); cmpS(s,a==b,t,"scalar product of singular vectors"); }
	// the source's vectors lie in the span
	for(int a=0;a<q;a++){ std::vector<double> x(L); double nn=0; for(int i=0;i<L;i++){ x[i]=(double)(R)(tall?fa(i,a):fa(a,i)); nn+=x[i]*x[i]; } for(int b=0;b<q;b++){ double s=0; for(int i=0;i<L;i++) s+=x[i]*el(i,b); nn-=s*s; } CHECK(nn<1e-3,"a source vector is outside of the span of the result (%g) | %s",nn,g_ctx.c_str()); }
	IM im; CHECK(im._mIsOrthogonal(A,tall),"_mIsOrthogonal rejects an orthogonal matrix | %s",g_ctx.c_str()); if(q>0){ R s=A.get(0,0); A.set(0,0,s+R(0.5)); double nn=0; for(int i=0;i<L;i++) nn+=el(i,0)*el(i,0); if(std::fabs(nn-1)>0.01) CHECK(!im._mIsOrthogonal(A,tall),"_mIsOrthogonal accepts a vector of length %g | %s",std::sqrt(nn),g_ctx.c_str()); } }
