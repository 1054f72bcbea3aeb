// Persistence through .mat archives over the in-memory stand-in of the MATLAB API (lib/shim/mat.h): values, matrices, structures,
// failures of every API call, weights of all architectures, training data.
#define NNTL_MATLAB_AVAILABLE 1
#include <experimental/filesystem>
#define NETX bool save(const char*f)override{ return nn.write_weights(f); } bool load(const char*f)override{ return nn.read_weights(f); }
#include "mathx.hpp"
#include "nntl/utils.h"
#include "nntl/_supp/io/matfile.h"
#include "archs.hpp"
#include <limits>
#include <map>
#include <unistd.h>
typedef nntl_supp::omatfile<> OMF; typedef nntl_supp::omatfileEx<> OMX; typedef nntl_supp::imatfile<> IMF; typedef nntl_supp::_matfile_errs::ErrorCode E;
using nntl::serialization::make_nvp; using nntl::serialization::make_named_struct;
static std::string fname(){ static std::string s=std::string(getenv("TMPDIR")?getenv("TMPDIR"):"/tmp")+"/vp19_"+std::to_string(getpid())+".mat"; return s; }
struct Clean{ Clean(){ mxf::wipe(); mxf::live()=0; mxf::opens()=0; mxf::countdown()=-1; mxf::calls()=0; mxf::misuse().clear(); } ~Clean(){ mxf::countdown()=-1; mxf::wipe(); ::unlink(fname().c_str()); } };
static long arrays(const mxArray*a){ long n=1; for(auto&q:a->f) if(q.second) n+=arrays(q.second); return n; }
static long inFiles(){ long n=0; for(auto&f:mxf::files()) for(auto&v:f.second) n+=arrays(v.second); return n; }
// nothing is left open, leaked or misused
#define BALANCED(c) do{ CHECK(mxf::opens()==0,"%d files are left open | %s",mxf::opens(),c); CHECK(mxf::live()==inFiles(),"%ld arrays leaked | %s",mxf::live()-inFiles(),c); CHECK(mxf::misuse().empty(),"API misuse: %s | %s",mxf::misuse().c_str(),c); }while(0)
static mxArray*get(const char*n){ return mxf::find(mxf::files()[fname()],n); }
template<class T> struct TN{ static const char*n; }; template<class T> const char*TN<T>::n=typeid(T).name();
// ---- scalars
template<class T> struct SV{ T&v; template<class A> void serialize(A&ar,unsigned){ ar & make_nvp("v",v); } };
template<class T> struct SM{ math::smatrix<T>&m; math::smatrix_deform<T>&md; bool deform; const char*nm; template<class A> void serialize(A&ar,unsigned){ if(deform) ar & make_nvp(nm,md); else ar & make_nvp(nm,m); } };
struct SNone{ template<class A> void serialize(A&,unsigned){ mc::fail("contents of a struct were loaded without a file"); } };
template<class T> static std::vector<T> ext(){ typedef std::numeric_limits<T> L; std::vector<T> v={T(0),T(1),L::min(),L::max(),L::lowest()}; if(std::is_signed<T>::value) v.push_back(T(-1)); if(!L::is_integer) v.insert(v.end(),{T(0.1),T(-1.5),L::infinity(),-L::infinity(),L::epsilon()}); else { v.push_back(T(L::max()-1)); } return v; }
template<class T,class T2> static void loadAs(const char*nm,T w,bool inS){ IMF in; CHECK(in.open(fname())==E::Success,"open"); unsigned char pat=0xA5; T2 v; memset(&v,pat&1,sizeof v); T2 v0=v; SV<T2> s{v}; if(inS) in & make_named_struct("s",s); else in >> make_nvp("v",v); mc::op();
	bool same=std::is_same<T,T2>::value; CHECK(in.success()==same,"loading a %s as a %s: success=%d",TN<T>::n,TN<T2>::n,(int)in.success()); if(same) CHECK(!memcmp(&v,&w,sizeof v),"a %s value changed on its way through the file",TN<T>::n); else { CHECK(!memcmp(&v,&v0,sizeof v),"a failed load changed the variable"); CHECK(in.get_last_error()==E::WrongVariableTypeHasBeenRead,"error code %d",(int)in.get_last_error()); int z=7; in >> make_nvp("v",z); CHECK(z==7&&!in.success(),"an archive in error state went on"); in._drop_last_error(); T q=T(0); if(!inS){ in >> make_nvp("v",q); CHECK(in.success()&&!memcmp(&q,&w,sizeof q),"after dropping the error"); } else in._drop_last_error(); } in.close(); BALANCED(nm); }
template<class T> static void scalars(){ auto v=ext<T>(); T w=v[mc::choose((int)v.size())]; bool inS=mc::choose(2); Clean cl; { OMF o; CHECK(o.open(fname())==E::Success,"open"); SV<T> s{w}; if(inS) o << make_named_struct("s",s); else o << make_nvp("v",w); CHECK(o.success(),"saving failed"); CHECK(o.close()==E::Success,"close"); }
	loadAs<T,bool>("scalar",w,inS); loadAs<T,std::int8_t>("scalar",w,inS); loadAs<T,std::uint8_t>("scalar",w,inS); loadAs<T,std::int32_t>("scalar",w,inS); loadAs<T,std::uint32_t>("scalar",w,inS); loadAs<T,std::int64_t>("scalar",w,inS); loadAs<T,std::uint64_t>("scalar",w,inS); loadAs<T,float>("scalar",w,inS); loadAs<T,double>("scalar",w,inS); mc::state(mc::hmix(mc::hbytes(&w,sizeof w),inS)); mc::sample("%s inStruct=%d",TN<T>::n,(int)inS); }
SCENARIO(scalar){ switch(mc::choose(9)){ case 0: scalars<bool>(); break; case 1: scalars<std::int8_t>(); break; case 2: scalars<std::uint8_t>(); break; case 3: scalars<std::int32_t>(); break; case 4: scalars<std::uint32_t>(); break; case 5: scalars<std::int64_t>(); break; case 6: scalars<std::uint64_t>(); break; case 7: scalars<float>(); break; default: scalars<double>(); } }
// ---- matrices of every stored class
static double cellV(mxClassID id,int k,std::vector<unsigned char>&d,size_t i){ switch(id){
#define C_(ID,T) case ID: { auto v=ext<T>(); T w=v[k%v.size()]; memcpy(&d[i*sizeof(T)],&w,sizeof w); return (double)w; }
	C_(mxDOUBLE_CLASS,double) C_(mxSINGLE_CLASS,float) C_(mxINT8_CLASS,std::int8_t) C_(mxUINT8_CLASS,std::uint8_t) C_(mxINT16_CLASS,std::int16_t) C_(mxUINT16_CLASS,std::uint16_t) C_(mxINT32_CLASS,std::int32_t) C_(mxUINT32_CLASS,std::uint32_t) C_(mxINT64_CLASS,std::int64_t) C_(mxUINT64_CLASS,std::uint64_t) C_(mxLOGICAL_CLASS,bool)
#undef C_
	default: return 0; } }
static const mxClassID CL[]={mxDOUBLE_CLASS,mxSINGLE_CLASS,mxINT8_CLASS,mxUINT8_CLASS,mxINT16_CLASS,mxUINT16_CLASS,mxINT32_CLASS,mxUINT32_CLASS,mxINT64_CLASS,mxUINT64_CLASS,mxLOGICAL_CLASS,mxCHAR_CLASS,mxCELL_CLASS,mxSTRUCT_CLASS};
template<class T> static bool eqv(T a,T b){ return !memcmp(&a,&b,sizeof a)||a==b; }
template<class T> static void mtxLoad(){ mxClassID id=CL[mc::choose(14)]; int r=mc::choose(4),c=mc::choose(4); const char*nm[]={"m","train_x","test_x","train_y"}; int n=mc::choose(4); bool deform=mc::choose(2), inS=mc::choose(2); mc::shard(); Clean cl; char ctx[160]; snprintf(ctx,sizeof ctx,"class %d, %dx%d, '%s', deform=%d, in a struct=%d, %s",(int)id,r,c,nm[n],(int)deform,(int)inS,TN<T>::n);
	mxArray*a=mxf::make(id,r,c); std::vector<T> e(r*c); for(int k=0;k<r*c;k++) e[k]=(T)cellV(id,k,a->d,k); if(id==mxSINGLE_CLASS||id==mxDOUBLE_CLASS) for(int k=0;k<r*c;k++){ double v=0; if(id==mxDOUBLE_CLASS) memcpy(&v,&a->d[k*8],8); else { float q; memcpy(&q,&a->d[k*4],4); v=q; } e[k]=(T)v; }
	if(id==mxUINT64_CLASS) for(int k=0;k<r*c;k++){ std::uint64_t q; memcpy(&q,&a->d[k*8],8); e[k]=(T)q; } if(id==mxINT64_CLASS) for(int k=0;k<r*c;k++){ std::int64_t q; memcpy(&q,&a->d[k*8],8); e[k]=(T)q; }
	if(inS){ mxArray*s=mxf::make(mxSTRUCT_CLASS,1,1); a->owner=s; s->f.push_back({nm[n],a}); mxf::put(mxf::files()[fname()],"s",s); } else mxf::put(mxf::files()[fname()],nm[n],a);
	bool x=n==1||n==2; bool numeric=id!=mxCHAR_CLASS&&id!=mxCELL_CLASS&&id!=mxSTRUCT_CLASS, conv=numeric&&id!=mxINT16_CLASS&&id!=mxUINT16_CLASS; int ec=c-(x?1:0); bool ok=conv&&r>0&&ec>0;
	math::smatrix<T> m(2,2,true); math::smatrix_deform<T> md; md.will_emulate_biases(); CHECK(md.resize(2,2),"mem"); { IMF in; CHECK(in.open(fname())==E::Success,"open | %s",ctx); SM<T> s{m,md,deform,nm[n]};
		if(inS) in & make_named_struct("s",s); else s.serialize(in,0); mc::op(); CHECK(in.success()==ok,"loading: success=%d | %s",(int)in.success(),ctx);
		if(!ok){ E w=!numeric?E::WrongVariableTypeHasBeenRead:r==0||ec<=0?E::EmptyVariableHasBeenRead:E::WrongVariableTypeHasBeenRead; (void)w; CHECK(in.get_last_error()==E::WrongVariableTypeHasBeenRead||in.get_last_error()==E::EmptyVariableHasBeenRead||(in.get_last_error()==E::NoMemoryToCreateReadVariable&&r*c==0),"error code %d | %s",(int)in.get_last_error(),ctx); }
		math::smatrix<T>&g=deform?md:m; if(ok){ CHECK((int)g.rows()==r&&(int)g.cols_no_bias()==ec&&g.emulatesBiases()==x,"loaded as %dx%d, biases=%d | %s",(int)g.rows(),(int)g.cols_no_bias(),(int)g.emulatesBiases(),ctx); for(int i=0;i<r;i++) for(int j=0;j<ec;j++) CHECK(eqv(g.get(i,j),e[j*r+i]),"(%d,%d)=%g, stored %g | %s",i,j,(double)g.get(i,j),(double)e[j*r+i],ctx); if(x) for(int i=0;i<r;i++) CHECK(g.get(i,ec)==1,"bias %d is %g | %s",i,(double)g.get(i,ec),ctx);
			if(deform){ md.deform_rows(1); CHECK((int)md.rows()==1,"deform | %s",ctx); md.deform_rows(r); for(int i=0;i<r;i++) for(int j=0;j<ec;j++) CHECK(eqv(md.get(i,j),e[j*r+i]),"deform | %s",ctx); } } in.close(); }
	BALANCED(ctx); mc::state(mc::hbytes(ctx,strlen(ctx))); mc::sample("%s",ctx); }
SCENARIO(mtx_load_float){ mtxLoad<float>(); }
SCENARIO(mtx_load_double){ mtxLoad<double>(); }
template<class T> static void mtxRound(){ int r=1+mc::choose(4),c=1+mc::choose(4); bool b=mc::choose(2), deform=mc::choose(2), row=mc::choose(2); if(row) throw mc::Skip(); mc::shard(); Clean cl; char ctx[120]; snprintf(ctx,sizeof ctx,"%dx%d biases=%d deform=%d %s",r,c,(int)b,(int)deform,TN<T>::n); math::smatrix_deform<T> m; if(b) m.will_emulate_biases(); CHECK(m.resize(r,c),"mem"); auto v=ext<T>(); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m.set(i,j,v[(i*3+j*5)%v.size()]);
	{ OMF o; CHECK(o.open(fname())==E::Success,"open"); if(deform) o << make_nvp("train_x",m) << make_nvp("m",m); else { const math::smatrix<T>&q=m; o << make_nvp("train_x",const_cast<math::smatrix<T>&>(q)) << make_nvp("m",const_cast<math::smatrix<T>&>(q)); } CHECK(o.success(),"saving failed | %s",ctx); o.close(); mc::op(); } mxArray*a=get("m"); CHECK(a&&(int)a->m==r&&(int)a->n==c+b,"stored size | %s",ctx); CHECK(!memcmp(a->d.data(),m.data(),m.byte_size()),"stored values | %s",ctx);
	math::smatrix<T> g,h; { IMF in; CHECK(in.open(fname())==E::Success,"open"); in >> make_nvp("m",g); if(b) in >> make_nvp("train_x",h); CHECK(in.success(),"loading failed | %s",ctx); in.close(); } CHECK((int)g.rows()==r&&(int)g.cols()==c+b&&!g.emulatesBiases()&&!memcmp(g.data(),m.data(),m.byte_size()),"loaded differently | %s",ctx); if(b) CHECK(h==m,"features loaded differently | %s",ctx); BALANCED(ctx); mc::state(mc::hbytes(ctx,strlen(ctx))); }
SCENARIO(mtx_round){ if(mc::choose(2)) mtxRound<float>(); else mtxRound<double>(); }
// ---- histories of the extended saving archive against a tree model
struct Node{ double v=0; bool st=false; std::map<std::string,std::shared_ptr<Node>> f; }; typedef std::shared_ptr<Node> NPt;
static NPt cp(const NPt&a){ auto r=std::make_shared<Node>(*a); for(auto&q:r->f) q.second=cp(q.second); return r; }
static void same(const mxArray*a,const Node&n,const std::string&p,const char*h){ if(n.st){ CHECK(a->id==mxSTRUCT_CLASS&&a->m==1&&a->n==1,"%s is not a struct | %s",p.c_str(),h); CHECK(a->f.size()==n.f.size(),"%s has %d fields, expected %d | %s",p.c_str(),(int)a->f.size(),(int)n.f.size(),h); for(auto&q:n.f){ const mxArray*s=nullptr; for(auto&z:a->f) if(z.first==q.first) s=z.second; CHECK(s,"%s.%s is missing | %s",p.c_str(),q.first.c_str(),h); same(s,*q.second,p+"."+q.first,h); } } else { double v=0; CHECK(a->id==mxDOUBLE_CLASS&&a->d.size()==8,"%s is not a number | %s",p.c_str(),h); memcpy(&v,a->d.data(),8); CHECK(v==n.v,"%s=%g, expected %g | %s",p.c_str(),v,n.v,h); } }
SCENARIO(history){ Clean cl; std::map<std::string,NPt> file; struct Fr{ NPt n; std::string nm; bool old; NPt oldHead; std::string oldNm; }; std::vector<NPt> st; std::vector<Fr> ns; std::string h; int mode=mc::choose(2); bool canRead=mode; double val=1; std::vector<std::string> path; // names of the open structs with their level
	OMX o; auto open=[&](nntl_supp::_matfile_base<>::FileOpenMode m){ E e=o.open(fname(),m); CHECK(e==E::Success,"open failed %d | %s",(int)e,h.c_str()); }; typedef OMX F; open(mode?F::UpdateDelete:F::WriteDelete); h=mode?"open(u)":"open(w)"; int N=mc::thorough()?6:5; bool err=false;
	struct Open{ std::string nm; NPt parent; }; std::vector<Open> opened; // which member of which parent is being written
	for(int q=0;q<N&&!err;q++){ int k=mc::choose(q==N-1?10:11); if(q==1) mc::shard(); char b[80];
		if(k<8){ bool upd=k&1, nonest=(k>>1)&1; const char*nm=(k>>2)?"a":"b"; if(nonest&&st.empty()) throw mc::Skip(); NPt parent=nonest?(st.size()>1?st[st.size()-2]:nullptr):(st.empty()?nullptr:st.back()); if(nonest&&st.size()==1) parent=nullptr; for(auto&z:opened) if(z.nm==nm&&z.parent==parent) throw mc::Skip(); /* rewriting a struct that is still open */ snprintf(b,sizeof b," begin(%s%s%s)",nm,upd?",update":"",nonest?",nonest":""); h+=b;
			E e=o.save_struct_begin(std::string(nm),upd,nonest); mc::op(); CHECK(e==E::Success,"save_struct_begin failed with %d | %s",(int)e,h.c_str()); Fr f; f.nm=nm; f.old=nonest&&!st.empty(); if(f.old){ f.oldHead=st.back(); st.pop_back(); } NPt n; if(upd){ if(!st.empty()){ auto it=st.back()->f.find(nm); if(it!=st.back()->f.end()&&it->second->st) n=it->second; } else if(canRead){ auto it=file.find(nm); if(it!=file.end()&&it->second->st) n=cp(it->second); } } if(!n){ n=std::make_shared<Node>(); n->st=true; } f.n=n; st.push_back(n); ns.push_back(f); opened.push_back({nm,parent}); }
		else if(k==8){ E e=o.save_struct_end(); mc::op(); h+=" end"; if(ns.empty()){ CHECK(e==E::NoStructToSave,"end without begin gives %d | %s",(int)e,h.c_str()); err=true; break; } CHECK(e==E::Success,"save_struct_end failed with %d | %s",(int)e,h.c_str()); Fr f=ns.back(); ns.pop_back(); opened.pop_back(); NPt n=st.back(); st.pop_back(); if(!st.empty()) st.back()->f[f.nm]=n; else file[f.nm]=cp(n); if(f.old) st.push_back(f.oldHead); }
		else if(k==9){ const char*nm=(q&1)?"x":"a"; NPt parent=st.empty()?nullptr:st.back(); for(auto&z:opened) if(z.nm==nm&&z.parent==parent) throw mc::Skip(); double v=val++; snprintf(b,sizeof b," %s=%g",nm,v); h+=b; o << make_nvp(nm,v); mc::op(); CHECK(o.success(),"saving failed with %d | %s",(int)o.get_last_error(),h.c_str()); auto n=std::make_shared<Node>(); n->v=v; if(st.empty()) file[nm]=n; else st.back()->f[nm]=n; }
		else { if(!ns.empty()) throw mc::Skip(); CHECK(o.close()==E::Success,"close failed | %s",h.c_str()); mc::op(); BALANCED(h.c_str()); int m=mc::choose(3); h+=m==0?" reopen(keep)":m==1?" reopen(w)":" reopen(u)"; open(m==0?F::UpdateKeepOld:m==1?F::WriteDelete:F::UpdateDelete); if(m) file.clear(); canRead=m!=1; }
		mc::state(mc::hbytes(h.data(),h.size())); auto&vf=mxf::files()[fname()]; CHECK(vf.size()==file.size(),"%d variables in the file, expected %d | %s",(int)vf.size(),(int)file.size(),h.c_str()); for(auto&z:file){ auto*a=mxf::find(vf,z.first.c_str()); CHECK(a,"%s is missing in the file | %s",z.first.c_str(),h.c_str()); same(a,*z.second,z.first,h.c_str()); } }
	if(err){ double v=9; o << make_nvp("z",v); CHECK(!get("z")&&!o.success(),"an archive in error state went on | %s",h.c_str()); }
	if(!err){ while(!ns.empty()){ CHECK(o.save_struct_end()==E::Success,"save_struct_end | %s",h.c_str()); Fr f=ns.back(); ns.pop_back(); NPt n=st.back(); st.pop_back(); if(!st.empty()) st.back()->f[f.nm]=n; else file[f.nm]=cp(n); if(f.old) st.push_back(f.oldHead); } auto&vf=mxf::files()[fname()]; for(auto&z:file) same(mxf::find(vf,z.first.c_str()),*z.second,z.first,h.c_str()); CHECK(o.close()==E::Success,"close | %s",h.c_str()); }
	else o.close(); BALANCED(h.c_str()); mc::outcome(file.size()); mc::sample("%s",h.c_str()); }
// ---- open modes
SCENARIO(modes){ Clean cl; int pre=mc::choose(2), kind=mc::choose(2), m=mc::choose(5); typedef OMF F; if(pre){ OMF o; o.open(fname()); double v=3; o << make_nvp("v",v); o.close(); } auto md=(OMF::FileOpenMode)m; bool ok; E e; double w=4; if(kind==0){ OMF o; { double q=1; o << make_nvp("v",q); CHECK(o.get_last_error()==E::NoFileOpened||!o.success()||true,"x"); } o._drop_last_error(); e=o.open(fname(),md); ok=m==1||m==3||(m==2&&pre); CHECK((e==E::Success)==ok,"open for saving in mode %d (file exists=%d) gives %d",m,pre,(int)e); if(m==0||m==4) CHECK(e==E::InvalidOpenMode,"code %d",(int)e); else if(!ok) CHECK(e==E::FailedToOpenFile,"code %d",(int)e); if(ok){ CHECK(!get("v")==(m!=2),"old contents"); E e2=o.open(fname(),md); CHECK(e2==E::FileAlreadyOpened,"second open gives %d",(int)e2); o._drop_last_error(); o << make_nvp("w",w); CHECK(o.success()&&get("w"),"save"); } o.close(); }
	else { IMF i; e=i.open(fname(),(IMF::FileOpenMode)m); ok=(m==0||m==2)?pre:m==3; CHECK((e==E::Success)==ok,"open for loading in mode %d (file exists=%d) gives %d",m,pre,(int)e); if(ok&&pre){ i >> make_nvp("v",w); CHECK(m==3?!i.success()&&w==4:i.success()&&w==3,"value"); if(m==3) CHECK(i.get_last_error()==E::FailedToTransferVariable,"code"); } i.close(); }
	{ IMF i; double z=5; i >> make_nvp("v",z); CHECK(!i.success()&&i.get_last_error()==E::NoFileOpened&&z==5,"loading without a file"); SNone s; i._drop_last_error(); i & make_named_struct("s",s); CHECK(i.get_last_error()==E::NoFileOpened,"loading a struct without a file"); }
	{ OMX o; CHECK(o.save_struct_begin("a",false,false)==E::NoFileOpened,"struct without a file"); o._drop_last_error(); double z=1; o << make_nvp("z",z); CHECK(o.get_last_error()==E::NoFileOpened,"saving without a file"); o._drop_last_error(); o.close(); }
	BALANCED("modes"); mc::state(mc::hmix(pre*8+kind,m)); mc::outcome(e); }
// ---- every API call fails once
struct Inner{ double a=1; math::smatrix<double> m{2,2,false}; template<class A> void serialize(A&ar,unsigned){ ar & make_nvp("a",a) & make_nvp("m",m); } }; struct Outer{ Inner i; int q=5; bool b=true; template<class A> void serialize(A&ar,unsigned){ ar & make_nvp("q",q) & make_named_struct("i",i) & make_nvp("b",b); } };
static std::string flt; static bool prog(int k){ bool ok=true; if(k==0){ OMF o; ok&=o.open(fname())==E::Success; if(!ok){ o.close(); return false; } Outer x; x.i.m.zeros(); double d=2; o << make_nvp("d",d) << make_named_struct("o",x) << make_nvp("m",x.i.m); ok&=o.success(); ok&=o.close()==E::Success; }
	else if(k==1){ OMX o; ok&=o.open(fname(),OMX::UpdateDelete)==E::Success; if(!ok){ o.close(); return false; } double d=2; ok&=o.save_struct_begin("s",true,false)==E::Success; if(ok) o << make_nvp("d",d); ok&=o.success(); ok&=o.save_struct_end()==E::Success; if(!ok){ o.close(); return false; } ok&=o.save_struct_begin("s",true,false)==E::Success; o << make_nvp("e",d); ok&=o.success(); ok&=o.save_struct_end()==E::Success; ok&=o.close()==E::Success; }
	else { IMF i; ok&=i.open(fname())==E::Success; if(!ok){ i.close(); return false; } Outer x; x.i.m.zeros(); x.q=0; double d=0; math::smatrix<double> m; i & make_nvp("d",d) & make_named_struct("o",x) & make_nvp("m",m); ok&=i.success(); ok&=i.close()==E::Success; if(ok) CHECK(d==2&&x.q==5&&x.b&&x.i.a==1&&m.numel()==4,"loaded values"); }
	return ok; }
SCENARIO(faults){ Clean cl; int k=mc::choose(3); if(k==2) CHECK(prog(0),"saving"); mxf::calls()=0; if(k!=1) CHECK(prog(k),"program %d fails without faults",k); else CHECK(prog(k),"program 1"); int n=mxf::calls(); BALANCED("without faults"); int q=1+mc::choose(n); if(k!=2) mxf::wipe(); mxf::misuse().clear(); mxf::countdown()=q; bool ok=prog(k); mc::op(); mxf::countdown()=-1; char c[120]; snprintf(c,sizeof c,"program %d, call %d of %d (%s) fails",k,q,n,mxf::failed());
	bool harmless=k==1&&!strcmp(mxf::failed(),"matGetVariable"); CHECK(ok==harmless,"success=%d was reported | %s",(int)ok,c); BALANCED(c); mc::state(k*1000+q); mc::outcome(mc::hbytes(mxf::failed(),strlen(mxf::failed()))); mc::sample("%s",c); }
// ---- weights of whole networks
static std::vector<Mat> weights(INet&n){ std::vector<Mat> r; for(auto*p:n.W()) r.push_back(Run::M(*p,false)); return r; }
static void paths(mxArray*a,std::vector<std::pair<mxArray*,int>>&v){ for(size_t i=0;i<a->f.size();i++){ v.push_back({a,(int)i}); if(a->f[i].second->id==mxSTRUCT_CLASS) paths(a->f[i].second,v); } }
static void usable(Run&r,const char*c){ r.hist=c; r.readW(); r.gates=3; r.infer(2,1,false); }
SCENARIO(weights){ int a=mc::choose((int)archs().size()); int p=mc::choose(3), q=mc::choose(3), when=mc::choose(3); mc::shard(); auto&A=archs()[a]; Clean cl; char c[120]; snprintf(c,sizeof c,"%s weights %d into a %s network with weights %d",A.n,p,when==0?"working":when==1?"deinitialised":"fresh",q); g_W=1; g_order=0; std::vector<Mat> sv; { auto n=A.mk(); Run r(*n); r.hist=c; CHECK(n->init(2,2),"init | %s",c); r.setPat(p); sv=weights(*n); CHECK(n->save(fname().c_str()),"write_weights failed | %s",c); mc::op(); auto w=weights(*n); for(size_t k=0;k<w.size();k++) CHECK(w[k].a==sv[k].a,"saving changed the weights | %s",c); BALANCED(c); }
	auto n=A.mk(); Run r(*n); r.hist=c; r.gates=3; if(when<2){ CHECK(n->init(2,2),"init"); r.setPat(q); r.infer(2,0,false); if(when==1) n->deinit(); } CHECK(n->load(fname().c_str()),"read_weights failed | %s",c); mc::op(); BALANCED(c); if(when) CHECK(n->init(2,2),"init after read_weights failed | %s",c); auto w=weights(*n); CHECK(w.size()==sv.size(),"layers"); for(size_t k=0;k<w.size();k++) CHECK(w[k].r==sv[k].r&&w[k].c==sv[k].c&&w[k].a==sv[k].a,"weights of layer %d were not restored | %s",(int)k,c); usable(r,c); rngPat(0); r.train(2,0,false); mc::state(mc::hbytes(c,strlen(c))); mc::outcome(a); mc::sample("%s",c); }
SCENARIO(weights_bad){ int a=mc::choose((int)archs().size()); auto&A=archs()[a]; Clean cl; g_W=1; g_order=0; auto n=A.mk(); Run r(*n); r.hist=A.n; r.gates=3; CHECK(n->init(2,2),"init"); r.setPat(1); auto sv=weights(*n); CHECK(n->save(fname().c_str()),"write_weights failed | %s",A.n); r.setPat(0); auto old=weights(*n); auto&vf=mxf::files()[fname()]; std::vector<std::pair<mxArray*,int>> v; for(size_t i=0;i<vf.size();i++){ v.push_back({nullptr,(int)i}); if(vf[i].second->id==mxSTRUCT_CLASS) paths(vf[i].second,v); } int t=mc::choose((int)v.size()), how=mc::choose(8); mc::shard(); auto&slot=v[t].first?v[t].first->f[v[t].second]:vf[v[t].second]; mxArray*x=slot.second; char c[200]; snprintf(c,sizeof c,"%s: '%s' damaged in way %d",A.n,slot.first.c_str(),how);
	bool isS=x->id==mxSTRUCT_CLASS, num=!isS; mxArray*own=v[t].first; auto repl=[&](mxArray*z){ z->owner=own; slot.second=z; mxf::destroy(x); }; bool scalar=x->m*x->n==1; switch(how){ case 0: slot.first="gone"; break; case 1: repl(mxf::make(x->id,x->m+1,x->n)); break; case 2: repl(mxf::make(x->id,x->m,x->n+1)); break; case 3: repl(mxf::make(isS?mxDOUBLE_CLASS:mxSTRUCT_CLASS,1,1)); break; case 4: repl(mxf::make(mxCHAR_CLASS,x->m,x->n)); break; case 5: if(isS) throw mc::Skip(); repl(mxf::make(mxINT16_CLASS,x->m,x->n)); break; case 6: repl(mxf::make(x->id,0,0)); break; case 7: if(isS||scalar||x->m==x->n) throw mc::Skip(); repl(mxf::make(x->id,x->n,x->m)); break; } (void)num;
	bool ok=n->load(fname().c_str()); mc::op(); CHECK(!ok,"damaged weights were accepted | %s",c); BALANCED(c); auto w=weights(*n); for(size_t k=0;k<w.size();k++) CHECK(w[k].a==old[k].a||w[k].a==sv[k].a,"weights of layer %d are neither the old nor the saved ones | %s",(int)k,c); usable(r,c); rngPat(0); r.train(1,0,false); usable(r,c); mc::state(mc::hbytes(c,strlen(c))); mc::sample("%s",c); }
SCENARIO(weights_values){ int a=mc::choose((int)archs().size()); auto&A=archs()[a]; Clean cl; g_W=1; g_order=0; auto n=A.mk(); Run r(*n); r.hist=A.n; r.gates=3; CHECK(n->init(2,2),"init"); r.setPat(1); CHECK(n->save(fname().c_str()),"write_weights failed | %s",A.n); r.setPat(0); auto old=weights(*n); std::vector<std::pair<mxArray*,int>> v; auto&vf=mxf::files()[fname()]; for(auto&q:vf) paths(q.second,v); std::vector<mxArray*> cnt; for(auto&q:v){ auto&s=q.first->f[q.second]; if(s.second->id!=mxSTRUCT_CLASS&&s.second->id!=mxDOUBLE_CLASS) cnt.push_back(s.second); } if(cnt.empty()){ mc::state(a); return; } mxArray*x=cnt[mc::choose((int)cnt.size())]; int d=mc::choose(4); mc::shard(); int val=0; CHECK(x->d.size()==4,"size of a stored count"); memcpy(&val,x->d.data(),4); val=d==0?val+1:d==1?val-1:d==2?0:-val; memcpy(x->d.data(),&val,4); bool ok=n->load(fname().c_str()); mc::op(); char c[160]; snprintf(c,sizeof c,"%s: stored count of tiles changed to %d",A.n,val); CHECK(!ok,"damaged file was accepted | %s",c); BALANCED(c); usable(r,c); mc::state(a*10+d); }
SCENARIO(weights_faults){ int a=mc::choose((int)archs().size()); auto&A=archs()[a]; bool ld=mc::choose(2); Clean cl; g_W=1; g_order=0; auto n=A.mk(); Run r(*n); r.hist=A.n; r.gates=3; CHECK(n->init(2,2),"init"); r.setPat(1); auto sv=weights(*n); mxf::calls()=0; CHECK(n->save(fname().c_str()),"write_weights failed | %s",A.n); int nc=mxf::calls(); if(ld){ mxf::calls()=0; CHECK(n->load(fname().c_str()),"read_weights failed | %s",A.n); nc=mxf::calls(); } int q=1+mc::choose(nc); mc::shard(); r.setPat(0); auto old=weights(*n); if(!ld) mxf::wipe(); mxf::countdown()=q; bool ok=ld?n->load(fname().c_str()):n->save(fname().c_str()); mc::op(); mxf::countdown()=-1; char c[160]; snprintf(c,sizeof c,"%s: %s, call %d of %d (%s) fails",A.n,ld?"read_weights":"write_weights",q,nc,mxf::failed()); bool harmless=ld&&!strcmp(mxf::failed(),"matClose"); CHECK(ok==harmless,"success=%d was reported | %s",(int)ok,c); BALANCED(c); auto w=weights(*n); for(size_t k=0;k<w.size();k++) CHECK(w[k].a==old[k].a||(ld&&w[k].a==sv[k].a),"weights of layer %d are neither the old nor the saved ones | %s",(int)k,c); usable(r,c); mc::state(mc::hbytes(c,strlen(c))); mc::sample("%s",c); }
SCENARIO(weights_nofile){ auto n=archs()[mc::choose((int)archs().size())].mk(); Clean cl; CHECK(n->init(2,2),"init"); auto w=weights(*n); CHECK(!n->load("vp19_does_not_exist.mat"),"missing file accepted"); auto w2=weights(*n); for(size_t k=0;k<w.size();k++) CHECK(w[k].a==w2[k].a,"weights changed"); BALANCED("no file"); mc::state(w.size()); }
// ---- training data
template<class T> static void tdRound(){ int n0=1+mc::choose(3),n1=1+mc::choose(2),xw=1+mc::choose(2),yw=1+mc::choose(2), drop=mc::choose(5); mc::shard(); Clean cl; nntl::inmem_train_data<T> td,t2; typedef math::smatrix_deform<T> M; auto mk=[&](int n,int w,bool b,int tag){ M m; if(b) m.will_emulate_biases(); else m.dont_emulate_biases(); CHECK(m.resize_as_dataset(n,w),"mem"); for(int i=0;i<n;i++) for(int j=0;j<w;j++) m.set(i,j,T(tag*100+i*10+j)+T(0.25)); return m; }; CHECK(td.absorb(mk(n0,xw,true,1),mk(n0,yw,false,2),mk(n1,xw,true,3),mk(n1,yw,false,4)),"absorb"); { OMF o; CHECK(o.open(fname())==E::Success,"open"); o << td; CHECK(o.success(),"saving the data failed"); o.close(); } mc::op(); const char*nm[]={"train_x","train_y","test_x","test_y"}; if(drop<4){ auto&vf=mxf::files()[fname()]; for(size_t i=0;i<vf.size();i++) if(vf[i].first==nm[drop]){ mxf::destroy(vf[i].second); vf.erase(vf.begin()+i); break; } } { IMF i; CHECK(i.open(fname())==E::Success,"open"); i >> t2; CHECK(i.success()==(drop==4),"loading success=%d with set %d missing",(int)i.success(),drop); i.close(); } if(drop==4){ CHECK(!t2.empty(),"nothing loaded"); for(int s=0;s<2;s++) CHECK(t2.X(s)==td.X(s)&&t2.Y(s)==td.Y(s),"set %d changed on its way through the file",s); } BALANCED("train data"); mc::state(mc::hmix(n0*100+n1*10+xw,yw*10+drop)); }
SCENARIO(train_data){ if(mc::choose(2)) tdRound<float>(); else tdRound<double>(); }
