// Matrix container: explicit-state search over operation sequences on an owning/deformable matrix X and a second matrix Y
// (owner or view of X's or of an external block), against a reference model, under AddressSanitizer.
#include "nn.hpp"
#include "mc.hpp"
#include <memory>
#include <set>
#include <sanitizer/allocator_interface.h>
using namespace nntl; using math::smatrix; using math::smatrix_deform; typedef vec_len_t VL;
static long g_live=0; static bool g_hook=false; static void hm(const volatile void*p,size_t){ if(g_hook&&p) g_live++; } static void hf(const volatile void*p){ if(g_hook&&p) g_live--; }
static int g_hooks=__sanitizer_install_malloc_and_free_hooks(hm,hf);
// ---- reference model
static const long UNDEF=-1000000;
struct Stor{ std::vector<long> v; bool alive=true; bool ext=false; };
struct M{ std::shared_ptr<Stor> s; size_t off=0; int r=0,c=0; bool bias=false,holey=false,bir=false,own=true; size_t cap=0; /*elements usable from off*/
	int rnb()const{ return r-(bias&&bir); } int cnb()const{ return c-(bias&&!bir); } size_t n()const{ return (size_t)r*c; } bool empty()const{ return !s; }
	long& at(int i,int j){ return s->v[off+i+(size_t)r*j]; }
	void drop(){ if(s&&own) s->alive=false; s.reset(); r=c=0; off=0; cap=0; }
	bool dangling()const{ return s&&!s->alive; }
	void alloc(int R,int C){ drop(); s=std::make_shared<Stor>(); s->v.assign((size_t)R*C,UNDEF); r=R;c=C;cap=s->v.size(); }
	void setb(){ if(bir) for(int j=0;j<c;j++) at(r-1,j)=1; else for(int i=0;i<r;i++) at(i,c-1)=1; holey=false; }
	void resize(int R,int C){ bool same=s&&own&&r==R+(bias&&bir)&&c==C+(bias&&!bir); if(same){ for(size_t i=0;i<n();i++) s->v[off+i]=UNDEF; } else { alloc(R+(bias&&bir),C+(bias&&!bir)); holey=false; } if(bias) setb(); }
};
template<class T> struct Sys{
	smatrix_deform<T> X; smatrix<T> Y; M x,y; T* ext; std::shared_ptr<Stor> es; long cnt=2; static const int EXTN=12; std::string path; int rem; bool yIsView=false, wide=false;
	Sys(){ ext=(T*)malloc(EXTN*sizeof(T)); es=std::make_shared<Stor>(); es->ext=true; es->v.resize(EXTN); for(int i=0;i<EXTN;i++){ ext[i]=(T)(50+i); es->v[i]=50+i; } }
	~Sys(){ free(ext); }
	template<class MT> void cmp(MT& A,M& m,const char* nm){
		#define Q(c) CHECK(c,"matrix %s after%s",nm,path.c_str())
		const MT& K=A;
		Q(K.empty()==m.empty()); Q((int)K.rows()==m.r); Q((int)K.cols()==m.c); Q(K.emulatesBiases()==m.bias); Q(K.bBatchInRow()==m.bir); Q(K.bBatchInColumn()==!m.bir&&K.bSampleInRow()==!m.bir&&K.bSampleInColumn()==m.bir);
		Q(K.has_bias_row()==(m.bias&&m.bir)); Q(K.has_bias_column()==(m.bias&&!m.bir)); Q(!K.isAllocationFailed()); Q(K.bDontManageStorage()==!m.own&&K.bOwnStorage()==m.own||m.empty());
		if(m.empty()) return; 
		Q((int)K.rows_no_bias()==m.rnb()); Q((int)K.cols_no_bias()==m.cnb()); Q((int)K.rows(true)==m.rnb()&&(int)K.cols(true)==m.cnb()&&(int)K.rows(false)==m.r&&(int)K.cols(false)==m.c);
		Q((int)K.sample_size()==(m.bir?m.rnb():m.cnb())); Q((int)K.batch_size()==(m.bir?m.c:m.r)); Q((size_t)K.numel()==m.n()); Q((int)K.ldim()==m.r&&(int)K.ldimAsVecLen()==m.r);
		Q((size_t)K.numel_no_bias_sBiR()==(size_t)m.rnb()*m.cnb()&&(size_t)K.numel_sBiR(true)==(size_t)m.rnb()*m.cnb()&&(size_t)K.numel_sBiR(false)==m.n());
		Q((int)K.size().first==m.r&&(int)K.size().second==m.c&&(int)K.transposed_size().first==m.c&&(int)K.transposed_size().second==m.r);
		Q((int)K.size_no_bias().first==m.rnb()&&(int)K.size_no_bias().second==m.cnb()); Q((int)K.dataset_size().first==(m.bir?m.cnb():m.rnb())&&(int)K.dataset_size().second==(m.bir?m.rnb():m.cnb()));
		Q(K.byte_size()==(numel_cnt_t)(m.n()*sizeof(T)));
		if(!m.bias||!m.bir){ Q((size_t)K.numel_no_bias()==(size_t)m.rnb()*m.cnb()); Q(K.end_no_bias()==K.data()+m.rnb()*m.cnb()); Q(K.end(true)==K.end_no_bias()&&K.end(false)==K.end()); Q(K.byte_size_no_bias()==(numel_cnt_t)(sizeof(T)*m.rnb()*m.cnb())); }
		Q(K._universal_range_BiR_aware(true)==(numel_cnt_t)(m.bias&&m.bir?m.c:(m.bir?m.n():m.rnb()*m.cnb()))&&K._universal_range_BiR_aware(false)==(numel_cnt_t)m.n());
		Q(K.hasHoleyBiases()==(m.bias&&m.holey));
		if(m.dangling()) return;
		Q(K.begin()==K.data()&&K.end()==K.data()+m.n());
		bool strict=true,bin=true; for(int j=0;j<m.c;j++){ Q(K.colDataAsVec(j)==K.data()+(size_t)m.r*j); for(int i=0;i<m.r;i++){ long e=m.at(i,j); T v=K.get(i,j); Q(&A.get(i,j)==A.data()+i+(size_t)m.r*j); if(e!=UNDEF) Q(v==(T)e); if(m.bias&&(m.bir?i==m.r-1:j==m.c-1)){ if(!(v==T(1))) strict=false; if(!(v==T(1)||v==T(0))) bin=false; } } }
		if(m.bias){ if(!m.bir) Q(K.bias_column()==K.data()+(size_t)m.r*(m.c-1)); if(m.holey){ Q(K.test_biases_holey()==bin); Q(K.test_biases_ok()==bin);} else { Q(K.test_biases_ok()==strict); Q(K.test_biases_strict()==strict); Q(K.if_biases_test_strict()==strict);} } else Q(K.if_biases_test_strict());
		// deep equality agrees with the model's
		#undef Q
	}
	void all(){ if(!y.dangling()&&!x.dangling()&&!x.empty()&&!y.empty()){ bool eq=x.bias==y.bias&&x.bir==y.bir&&x.r==y.r&&x.c==y.c&&x.holey==y.holey; bool un=false; if(eq) for(size_t i=0;i<x.n();i++){ long a=x.s->v[x.off+i],b=y.s->v[y.off+i]; bool same=x.s==y.s&&x.off==y.off; if(same) continue; if(a==UNDEF||b==UNDEF) un=true; else if(a!=b) eq=false; } const smatrix<T>& xb=X; if(!(eq&&un)){ CHECK((xb==Y)==eq,"operator== after%s",path.c_str()); CHECK((xb!=Y)==!eq,"operator!= after%s",path.c_str()); } }
		cmp(X,x,"X"); cmp(Y,y,"Y"); for(int i=0;i<EXTN;i++) if(es->v[i]!=UNDEF) CHECK(ext[i]==(T)es->v[i],"external block changed at %d after%s",i,path.c_str()); }
	uint64_t key(){ std::map<long,int> ren; uint64_t h=7; auto val=[&](long v){ if(v==UNDEF||v==0||v==1){ h=mc::hmix(h,(uint64_t)(v+5)); return; } auto it=ren.find(v); int k; if(it==ren.end()){ k=(int)ren.size(); ren[v]=k; } else k=it->second; h=mc::hmix(h,100+k); };
		for(M*m:{&x,&y}){ h=mc::hmix(h,m->r*64+m->c); h=mc::hmix(h,m->bias+2*m->holey+4*m->bir+8*m->own+16*m->empty()+32*m->dangling()); h=mc::hmix(h,m->cap*16+m->off); h=mc::hmix(h,m->s==es?3:(m->s&&m->s==x.s?2:1)); if(m->s&&!m->dangling()) for(size_t i=0;i<m->cap&&m->off+i<m->s->v.size();i++) val(m->s->v[m->off+i]); }
		for(long v:es->v) val(v); return h; }
	// content of the non-bias elements := fresh values
	template<class MT> void fillv(MT&A,M&m){ for(int j=0;j<m.cnb();j++) for(int i=0;i<m.rnb();i++){ long v=2+(cnt++)%40; A.set(i,j,(T)v); m.at(i,j)=v; } }
	typedef std::pair<int,int> D;
	bool usable(const M&m){ return !m.empty()&&!m.dangling(); }
	// enumerates enabled operations; runs number k
	int step(int want){
		int k=-1; 
		#define OP(en,txt,...) if(en){ if(++k==want){ path+=std::string(" ")+txt; if(mc::C().replaying) fprintf(stderr,"%s\n",path.c_str()); __VA_ARGS__; return -1; } }
		static const D dims[]={{1,1},{2,3},{3,1},{2,1}}; std::string b;
		for(auto d:dims){ OP(x.own,"X.resize("+std::to_string(d.first)+","+std::to_string(d.second)+")", CHECK(X.resize(d.first,d.second),"resize"); bool bb=x.bias; x.drop(); x.holey=false; x.resize(d.first,d.second); ) }
		for(auto d:{D(2,2),D(3,1)}){ OP(y.own,"Y.resize("+std::to_string(d.first)+","+std::to_string(d.second)+")", CHECK(Y.resize(d.first,d.second),"resize"); y.resize(d.first,d.second); ) }
		OP(x.own,"X.resize_as_dataset(3,2)", CHECK(X.resize_as_dataset(3,2),""); x.drop(); x.holey=false; if(x.bir) x.resize(2,3); else x.resize(3,2); )
		OP(y.own,"Y.resize_noBias(2,3)", CHECK(Y.resize(2,3,math::tag_noBias()),""); y.bias=false; y.resize(2,3); )
		OP(y.own&&!x.empty()&&x.bias==y.bias&&x.bir==y.bir,"Y.resize(X)", CHECK(Y.resize(X),""); y.resize(x.rnb(),x.cnb()); )
		OP(x.empty(),"X.emulate_biases", X.emulate_biases(!x.bias); x.bias=!x.bias; )
		OP(y.empty(),"Y.will/dont_emulate_biases", if(y.bias) Y.dont_emulate_biases(); else Y.will_emulate_biases(); y.bias=!y.bias; )
		OP(x.empty(),"X.set_batchInRow", X.set_batchInRow(!x.bir); x.bir=!x.bir; )
		OP(y.empty(),"Y.set_batchInRow", Y.set_batchInRow(!y.bir); y.bir=!y.bir; )
		OP(true,"X.clear", X.clear(); x.drop(); x.own=true; x.holey=false; x.bir=false; )
		OP(true,"Y.clear", Y.clear(); y.drop(); y.own=true; y.holey=false; y.bir=false; )
		OP(usable(x),"X.fillv", fillv(X,x); )
		OP(usable(y),"Y.fillv", fillv(Y,y); )
		OP(usable(x),"X.zeros", X.zeros(); for(int j=0;j<x.c;j++) for(int i=0;i<x.r;i++){ bool bb=x.bias&&(x.bir?i==x.r-1:j==x.c-1); if(!bb) x.at(i,j)=0; else if(x.bir) x.at(i,j)=1; } )
		OP(usable(y),"Y.ones", Y.ones(); for(size_t i=0;i<y.n();i++) y.s->v[y.off+i]=1; y.holey=false; )
		OP(usable(y)&&!y.bias,"Y.fill(7)", Y.fill(T(7)); for(size_t i=0;i<y.n();i++) y.s->v[y.off+i]=7; )
		OP(usable(x)&&!(x.bias&&x.bir)&&x.cnb()>0,"X.fill_column_with(0,9)", X.fill_column_with(0,T(9)); for(int i=0;i<x.r;i++) x.at(i,0)=9; )
		OP(usable(x)&&!(x.bias&&!x.bir)&&x.rnb()>0,"X.fill_row_with(last data row,9)", int q=x.rnb()-1; X.fill_row_with(q,T(9)); for(int j=0;j<x.c;j++) x.at(q,j)=9; )
		OP(usable(x)&&!x.bias,"X.fill_last_row/col", X.fill_last_row(T(8)); for(int j=0;j<x.c;j++) x.at(x.r-1,j)=8; X.fill_last_column(T(6)); for(int i=0;i<x.r;i++) x.at(i,x.c-1)=6; )
		OP(usable(x)&&x.bias,"X.set_biases", X.set_biases(); x.setb(); )
		OP(usable(y)&&y.bias,"Y.set_biases", Y.set_biases(); y.setb(); )
		OP(usable(x)&&x.bias&&!x.bir,"X.copy_biases_from(ptr,holes)", std::vector<T> p(x.r,T(1)); p[0]=T(0); X.copy_biases_from(p.data(),x.r-1); for(int i=0;i<x.r;i++) x.at(i,x.c-1)=i!=0; x.holey=true; )
		OP(usable(y)&&y.bias&&!y.bir,"Y.copy_biases_from(ptr,full)", std::vector<T> p(y.r,T(1)); Y.copy_biases_from(p.data(),y.r); for(int i=0;i<y.r;i++) y.at(i,y.c-1)=1; y.holey=false; )
		OP(usable(y)&&usable(x)&&y.bias&&!y.bir&&x.bias&&!x.bir&&x.r==y.r&&(x.s!=y.s)&&strictOrBin(x),"Y.copy_biases_from(X)", Y.copy_biases_from(X); for(int i=0;i<y.r;i++) y.at(i,y.c-1)=x.holey?x.at(i,x.c-1):1; y.holey=x.holey; )
		OP(usable(x)&&x.bias&&x.bir,"X.make holey bias row", X.holey_biases(true); X.set(x.r-1,0,T(0)); x.holey=true; x.at(x.r-1,0)=0; )
		// copies
		OP(usable(x)&&(y.own||(usable(y)&&x.r==y.r&&x.c==y.c&&x.s!=y.s)),"X.clone_to(Y)", CHECK(X.clone_to(Y),""); if(y.own) clon(x,y,x.r,x.c); else cpy(x,y,x.n()); y.bias=x.bias; y.holey=x.holey; y.bir=x.bir; )
		OP(usable(y)&&x.own&&y.s!=x.s,"Y.clone_to(X)", smatrix<T>& xb=X; CHECK(Y.clone_to(xb),""); X.update_on_hidden_resize(); clon(y,x,y.r,y.c); x.bias=y.bias; x.holey=y.holey; x.bir=y.bir; )
		OP(usable(y)&&x.own,"X.cloneFrom(Y)", if(y.s!=x.s){ CHECK(X.cloneFrom(Y),""); clon(y,x,y.r,y.c); x.bias=y.bias; x.holey=y.holey; x.bir=y.bir; } )
		OP(usable(x)&&!(x.bias&&x.bir)&&y.own,"X.clone_to_no_bias(Y)", CHECK(X.clone_to_no_bias(Y),""); clon(x,y,x.r,x.cnb()); y.bias=y.holey=false; y.bir=x.bir; )
		OP(usable(x)&&usable(y)&&x.s!=y.s&&x.n()==y.n()&&x.bias==y.bias,"X.copy_to(Y)", CHECK(X.copy_to(Y),""); cpy(x,y,x.n()); y.r=x.r;y.c=x.c; y.holey=x.holey; y.bir=x.bir; )
		OP(usable(x)&&usable(y)&&x.s!=y.s&&(x.n()!=y.n()||x.bias!=y.bias),"X.copy_to(Y) refused", CHECK(!X.copy_to(Y),"copying into a matrix of another shape was not refused,%s",path.c_str()); )
		OP(usable(x)&&usable(y)&&x.s!=y.s&&!y.own&&(x.r!=y.r||x.c!=y.c),"X.clone_to(view) refused", CHECK(!X.clone_to(Y),"cloning into a view of another shape was not refused,%s",path.c_str()); )
		OP(usable(y)&&usable(x)&&x.s!=y.s&&x.r==y.r&&x.cnb()==y.cnb()&&!(x.bias&&x.bir)&&!(y.bias&&y.bir)&&!(x.bias&&y.bir)&&!(y.bias&&x.bir),"Y.copy_data_skip_bias(X)", CHECK(Y.copy_data_skip_bias(X),""); cpy(y,x,y.rnb()*y.cnb()); x.bir=y.bir; )
		OP(wide&&usable(x)&&usable(y)&&x.s!=y.s&&!y.own&&!(x.bias&&x.bir)&&x.r==y.r&&x.cnb()==y.c,"X.clone_to_no_bias(view)", CHECK(X.clone_to_no_bias(Y),""); cpy(x,y,y.n()); y.bias=y.holey=false; y.bir=x.bir; )
		OP(wide&&usable(x)&&usable(y)&&x.s!=y.s&&!y.own&&!(x.bias&&x.bir)&&(x.r!=y.r||x.cnb()!=y.c),"X.clone_to_no_bias(view) refused", CHECK(!X.clone_to_no_bias(Y),"cloning into a view of another shape was not refused,%s",path.c_str()); )
		OP(wide&&usable(x)&&usable(y)&&x.s!=y.s&&!(x.bias&&x.bir)&&!(y.bias&&y.bir)&&(x.r!=y.r||x.cnb()!=y.cnb()),"Y.copy_data_skip_bias(X) refused", CHECK(!Y.copy_data_skip_bias(X),"copying data into a matrix of another shape was not refused,%s",path.c_str()); )
		OP(wide&&y.own,"Y.resize(0,2),(2,0) refused", CHECK(!Y.resize(0,2)&&!Y.resize(2,0),"resizing to nothing was not refused,%s",path.c_str()); )
		OP(wide&&usable(x)&&!(x.bias&&x.bir),"X.fill_from_array_no_bias", std::vector<T> t; std::vector<short> u; for(int i=0;i<x.r*x.cnb();i++){ long v=2+(cnt++)%40; t.push_back((T)v); u.push_back((short)v); x.s->v[x.off+i]=v; } if(cnt%2) X.fill_from_array_no_bias(t.data()); else X.fill_from_array_no_bias(u.data()); )
		OP(wide&&usable(y)&&!(y.bias&&y.bir),"Y.nans_no_bias", Y.nans_no_bias(); for(int j=0;j<y.cnb();j++) for(int i=0;i<y.r;i++){ CHECK(std::is_integral<T>::value||Y.get(i,j)!=Y.get(i,j),"not a NaN,%s",path.c_str()); Y.set(i,j,T(3)); y.at(i,j)=3; } )
		// moves
		OP(true,"X=move(Y)", if(!(y.s&&y.s==x.s)){ X=std::move(Y); x.drop(); mv(y,x); } )
		OP(true,"Y=move(X)", if(!(y.s&&y.s==x.s)){ Y=std::move(static_cast<smatrix<T>&>(X)); y.drop(); mv(x,y); } )
		OP(true,"X=X", auto&r=X; X=std::move(r); )
		OP(true,"swap through moved temporaries", if(!(y.s&&y.s==x.s)){ smatrix_deform<T> t(std::move(X)); M tm=x; x.s.reset(); x.r=x.c=0;x.off=x.cap=0; X=std::move(Y); M t2=y; mvf(y); x=t2; Y=std::move(static_cast<smatrix<T>&>(t)); y=tm; } )
		// views
		OP(usable(x),"Y.useExternalStorage(X)", Y.useExternalStorage(X); view(x,0,x.r,x.c,x.bias,x.holey&&x.bias,x.bir); )
		OP(usable(x)&&!(x.bias&&x.bir)&&x.cnb()>0,"Y.useExternalStorage_no_bias(X)", Y.useExternalStorage_no_bias(X); view(x,0,x.rnb(),x.cnb(),false,false,x.bir); )
		OP(usable(x)&&!(x.bias&&x.bir)&&x.cnb()>=2,"Y.useExternalStorage_no_bias(X,1,n-1)", Y.useExternalStorage_no_bias(X,1,x.cnb()-1); view(x,x.r,x.r,x.cnb()-1,false,false,x.bir); )
		OP(usable(x)&&x.cnb()>=2&&!(x.bias&&x.bir),"Y=X.submatrix_cols_no_bias(1,1)", smatrix<T>&xb=X; Y=xb.submatrix_cols_no_bias(1,1); view(x,x.r,x.r,1,false,false,x.bir); )
		for(int bir=0;bir<2;bir++) for(int bi=0;bi<2;bi++) OP(true,std::string("Y.useExternalStorage(ext,2x3")+(bi?",bias":"")+(bir?",BiR)":")"), if(bir) Y.useExternalStorage(true,ext,3,2,bi!=0); else Y.useExternalStorage(ext,2,3,bi!=0); y.drop(); y.own=false; y.s=es; y.off=0; y.r=2; y.c=3; y.cap=6; y.bias=bi; y.holey=false; y.bir=bir; )
		OP(true,"X.useExternalStorage(ext+6)", if(x.s&&x.s==y.s&&x.own) { Y.clear(); y.drop(); y.own=true; y.holey=false; y.bir=false; } X.useExternalStorage(ext+6,3,2,false); x.drop(); x.own=false; x.s=es; x.off=6; x.r=3; x.c=2; x.cap=6; x.bias=x.holey=x.bir=false; )
		OP(true,"Y.useInternalStorage(2,2,bias,BiR)", CHECK(Y.useInternalStorage(2,2,true,true),""); y.drop(); y.own=true; y.holey=false; y.bias=true; y.bir=true; y.resize(2,2); )
		OP(true,"Y.useInternalStorage()", CHECK(Y.useInternalStorage(),""); y.drop(); y.own=true; y.holey=y.bias=y.bir=false; )
		// constructors: owning ones and the ones that wrap a block given by the caller
		for(int bi=0;bi<2;bi++) for(int bir=0;bir<2;bir++){ std::string f=std::string(bi?",bias":"")+(bir?",BiR)":")");
			OP(wide,"Y=smatrix(2,1"+f, Y=smatrix<T>(2,1,bi!=0,bir!=0); y.drop(); y.own=true; y.holey=false; y.bias=bi; y.bir=bir; y.resize(2,1); )
			OP(wide,"Y=smatrix(size(1,2)"+f, Y=smatrix<T>(typename smatrix<T>::mtx_size_t(1,2),bi!=0,bir!=0); y.drop(); y.own=true; y.holey=false; y.bias=bi; y.bir=bir; y.resize(1,2); )
			OP(wide,"Y=smatrix(dataset 3x2"+f, Y=smatrix<T>(bir!=0,3,2,bi!=0); y.drop(); y.own=true; y.holey=false; y.bias=bi; y.bir=bir; if(bir) y.resize(2,3); else y.resize(3,2); )
			for(int ho=0;ho<=bi;ho++) OP(wide,"Y=smatrix(ext,2x3"+std::string(ho?",holey":"")+f, if(bir) Y=smatrix<T>(ext,2,3,bi!=0,ho!=0,true); else Y=smatrix<T>(ext,typename smatrix<T>::mtx_size_t(2,3),bi!=0,ho!=0,false); y.drop(); extv(2,3,bi,ho,bir); ) }
		OP(wide&&usable(x)&&x.n()<=(size_t)EXTN&&x.s!=es,"Y=smatrix(ext,like X)", Y=smatrix<T>(ext,X); y.drop(); extv(x.r,x.c,x.bias,x.holey&&x.bias,x.bir); )
		OP(wide&&usable(x)&&x.n()<=(size_t)EXTN&&x.s!=es&&!(x.bias&&x.bir)&&x.cnb()>0,"Y=smatrix(ext,like X,noBias)", Y=smatrix<T>(ext,X,math::tag_noBias()); y.drop(); extv(x.rnb(),x.cnb(),false,false,x.bir); )
		OP(wide,"Y.useExternalStorage(3,2,ext) by its own layout", if(true){ bool q=y.bir; Y.useExternalStorage(3,2,ext,true); y.drop(); if(q) extv(2,3,true,false,true); else extv(3,2,true,false,false); } )
		// deformation of X (never beyond the capacity)
		for(int q=1;q<=3;q++){ OP(usable(x)&&(x.bir?x.r*q:x.c*q)<=(int)x.cap&&(x.bir?x.c:x.r)!=q,"X.deform_batch_size_with_biases("+std::to_string(q)+")", X.deform_batch_size_with_biases(q); if(x.bir) x.c=q; else x.r=q; if(x.bias) x.setb(); ) }
		OP(usable(x)&&(x.bir?x.c:x.r)>0&&biasOk(x),"X.deform_batch_size_with_biases(same)", X.deform_batch_size_with_biases(x.bir?x.c:x.r); )
		OP(usable(x)&&x.cap>=2&&!x.bias,"X.deform(1,2)", X.deform(1,2); x.r=1;x.c=2; )
		OP(usable(x)&&!x.bias&&x.c>1,"X.deform_cols(c-1)", VL o=X.deform_cols(x.c-1); CHECK((int)o==x.c,"deform_cols returns the old value"); x.c--; )
		OP(usable(x)&&!x.bias&&x.r>1,"X.deform_rows(r-1)", VL o=X.deform_rows(x.r-1); CHECK((int)o==x.r,"deform_rows returns the old value"); x.r--; )
		OP(usable(x)&&x.cap>=4&&x.own,"X.deform_dataset(2,2)", bool ch=(x.r!=2||x.c!=2); X.deform_dataset(2,2); x.r=x.c=2; if(ch&&x.bias) x.setb(); )
		OP(usable(x)&&!(x.bias&&x.bir)&&x.cnb()>=1,"hide_biases,restore", bool h=X.hide_biases(); CHECK(h==x.bias,"hide_biases"); M t=x; t.c=x.cnb(); t.bias=false; t.own=x.own; cmp(X,t,"X(hidden biases)"); X.restore_biases(h); )
		OP(usable(x)&&x.c>1+(x.bias&&!x.bir)&&!(x.bias&&x.bir&&x.c<=2),"hide_last_n_cols(1),restore", bool h=X.hide_last_n_cols(1); CHECK(h==(x.bias&&!x.bir),"hide_last_n_cols"); M t=x; t.c=x.c-1-h; if(h) t.bias=false; cmp(X,t,"X(hidden columns)"); X.restore_last_n_cols(h,1); )
		OP(usable(x)&&!x.holey,"X.on_transposition", X.on_transposition(); std::swap(x.r,x.c); x.bir=!x.bir; if(x.bias) x.bias=false, X._drop_biases(); )
		OP(usable(x)&&usable(y)&&y.n()<=x.cap&&!x.bias,"X.deform_like(Y)", X.deform_like(Y); x.r=y.r;x.c=y.c;x.bir=y.bir; )
		OP(usable(x)&&usable(y)&&y.rnb()*y.cnb()>0&&y.rnb()*y.cnb()<=(int)x.cap&&!x.bias,"X.deform_like_no_bias(Y)", X.deform_like_no_bias(Y); x.r=y.rnb();x.c=y.cnb();x.bir=y.bir; )
		return k+1;
	}
	bool biasOk(M&m){ if(!m.bias) return true; for(int j=0;j<m.c;j++) for(int i=0;i<m.r;i++) if(m.bir?i==m.r-1:j==m.c-1) if(m.at(i,j)!=1) return false; return true; }
	bool strictOrBin(M&m){ for(int i=0;i<m.r;i++) if(m.at(i,m.c-1)!=1&&m.at(i,m.c-1)!=0) return false; return true; }
	void cpy(M&a,M&b,size_t n){ for(size_t i=0;i<n;i++) b.s->v[b.off+i]=a.s->v[a.off+i]; }
	void clon(M&a,M&b,int r,int c){ std::vector<long> t(a.s->v.begin()+a.off,a.s->v.begin()+a.off+(size_t)r*c); 
		bool same=b.s&&b.own&&b.r==r&&b.c==c; if(!same) b.alloc(r,c); b.own=true; b.cap=std::max<size_t>(b.cap,(size_t)r*c); if(same) b.cap=(size_t)r*c; for(size_t i=0;i<t.size();i++) b.s->v[b.off+i]=t[i]; }
	void extv(int r,int c,bool bi,bool ho,bool bir){ M v; v.s=es; v.off=0; v.r=r; v.c=c; v.cap=(size_t)r*c; v.bias=bi; v.holey=ho; v.bir=bir; v.own=false; y=v; }
	void mvf(M&a){ a.s.reset(); a.r=a.c=0; a.off=a.cap=0; }
	void mv(M&a,M&b){ b=a; b.cap=a.s?(b.own?std::min<size_t>(a.cap,a.cap):a.n()):0; mvf(a); }
	void view(M&o,size_t off,int r,int c,bool bi,bool ho,bool bir){ M v; v.s=o.s; v.off=o.off+off; v.r=r;v.c=c;v.cap=(size_t)r*c; v.bias=bi; v.holey=ho; v.bir=bir; v.own=false; y.drop(); y=v; }
	void run(int depth){ rem=depth; all(); for(int d=0;d<depth;d++){ int n=step(-2); int k=mc::choose(n); if(d==1) mc::shard(); step(k); mc::op(); all(); mc::outcome(key()); if(d>=2) mc::visit(key(),depth-1-d); }
		mc::sample("%s",path.c_str()); }
};
template<class T> static void run(int depth,bool wide=false){ g_live=0; g_hook=true; try{ { Sys<T> s; s.wide=wide; s.run(depth); s.x.s.reset(); s.y.s.reset(); } }catch(...){ g_hook=false; throw; } g_hook=false; }
SCENARIO(ops_float){ run<float>(mc::thorough()?6:5); }
SCENARIO(wide_float){ run<float>(mc::thorough()?5:4,true); }
SCENARIO(ops_double){ run<double>(mc::thorough()?5:4); }
SCENARIO(ops_int){ run<int>(mc::thorough()?5:4); }
// leaks/double frees: a short history, then everything destroyed: live blocks must return to the initial number
SCENARIO(storage_released){ static char pb[600]; g_live=0; g_hook=true; { Sys<float> s; for(int d=0;d<3;d++){ int n=s.step(-2); g_hook=false; int k; try{ k=mc::choose(n); if(d==0) mc::shard(); }catch(...){ throw; } g_hook=true; s.step(k); mc::op(); } snprintf(pb,sizeof pb,"%s",s.path.c_str()); } g_hook=false;
	CHECK(g_live==0,"%ld storage blocks stay allocated (or are freed twice) after%s",g_live,pb); mc::outcome(7); mc::state(mc::hbytes(pb,strlen(pb))); }
// index arithmetic of triangular parts
SCENARIO(triangular){ int n=1+mc::choose(mc::thorough()?120:40); mc::shard(); std::set<std::pair<int,int>>* seen=nullptr; for(int lo=0;lo<2;lo++){ std::vector<char> hit(n*n,0); numel_cnt_t N=(numel_cnt_t)n*(n-1)/2; CHECK(smatrix<float>::sNumelTriangl(n)==N,"n=%d",n); 
	int pr=-1,pc=-1; for(numel_cnt_t k=0;k<N;k++){ VL r=0,c=0; if(lo) smatrix<float>::sTrianglCoordsFromIdx<true>(n,k,r,c); else smatrix<float>::sTrianglCoordsFromIdx<false>(n,k,r,c); mc::op(); CHECK((int)r>=0&&(int)r<n&&(int)c>=0&&(int)c<n&&(lo?r>c:r<c),"n=%d k=%d -> (%d,%d)",n,(int)k,(int)r,(int)c); CHECK(!hit[r*n+c],"n=%d: element (%d,%d) is addressed twice",n,(int)r,(int)c); hit[r*n+c]=1; CHECK((int)c>pc||((int)c==pc&&(int)r==pr+1),"n=%d k=%d: order must be column-major without gaps",n,(int)k); pr=r;pc=c; mc::state(((n*2+lo)*200+r)*200+c); } } mc::outcome(n); }
// binary-content predicates on every vector over the alphabet {0,1,-0,2,-1,eps,NaN}
template<class T> static void isbin(std::vector<T> al){ int n=1+mc::choose(mc::thorough()?6:5); std::vector<T> v; bool st=true,bn=true; smatrix<T> m(n,1); for(int i=0;i<n;i++){ T a=al[mc::choose((int)al.size())]; v.push_back(a); m.set(i,0,a); bool z=a==T(0),pz=z&&!(std::is_floating_point<T>::value&&std::signbit((double)a)); if(!(a==T(1)||pz)) st=false; if(!(a==T(1)||z)) bn=false; }
	mc::op(4); CHECK(m._isBinary(true)==bn,""); CHECK(m._isBinaryStrict(true)==st,""); CHECK(m._isBinaryStrictNoBias(true)==st,""); smatrix<T> w(n,1,true); for(int i=0;i<n;i++) w.set(i,0,v[i]); CHECK(w._isBinary(true)==bn&&w._isBinaryStrictNoBias(true)==st&&w._isBinaryStrict(true)==st,""); bool nn=true; for(auto a:v) if(a!=a) nn=false; CHECK(m.test_noNaNs()==nn,"");
	mc::outcome(st+2*bn); mc::state(mc::hbytes(v.data(),n*sizeof(T),sizeof(T))); }
SCENARIO(binary_float){ isbin<float>({0.f,1.f,-0.f,2.f,-1.f,1e-30f,NAN}); } SCENARIO(binary_double){ isbin<double>({0.,1.,-0.,0.5,-1.,NAN}); } SCENARIO(binary_int){ isbin<int>({0,1,2,-1}); }
int main(int c,char**v){ return mc::run_main(c,v); }
