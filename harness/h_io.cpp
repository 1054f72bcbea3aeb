#include <cstdio>
#define _ftelli64 ftello
#define _fseeki64 fseeko
#define sscanf_s sscanf
// File readers: every truncation, every single-byte corruption and a grammar of well-formed and ill-formed files.
#include "netx.hpp"
#include "nntl/nntl.h"
#include "nntl/train_data/seq_data.h"
#include "nntl/_supp/io/binfile.h"
#include "nntl/_supp/io/jsonreader.h"
#include "rapidjson/memorystream.h"
#include <sys/mman.h>
#include <sanitizer/allocator_interface.h>
#include <dirent.h>
static std::string g_h; static void H(const char*f,...){ char b[240]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); g_h+=b; }
#define CK(c,f,...) CHECK(c,f " | %s",##__VA_ARGS__,g_h.c_str())
typedef std::string By; typedef nntl_supp::binfile BF; typedef nntl_supp::jsonreader JR;
// the file under test lives in an anonymous memory file
static int mfd(){ static int f=memfd_create("io",0); return f; } static const char* put(const By&b){ int f=mfd(); if(ftruncate(f,0)||(b.size()&&pwrite(f,b.data(),b.size(),0)!=(ssize_t)b.size())) mc::fail("harness: cannot write the memory file"); static char n[40]; snprintf(n,40,"/proc/self/fd/%d",f); return n; }
static int openFds(){ int f=dup(mfd()); close(f); return f; } // lowest free descriptor: grows when one is leaked
static void le(By&b,uint64_t v,int n){ for(int i=0;i<n;i++) b+=(char)(v>>(8*i)); }
static By hdr(int fields,int classes,uint32_t sig=0x6c746e6e,int ver=0){ By b; le(b,sig,4); le(b,ver,2); le(b,fields,2); le(b,classes,2); return b; }
static double val(int f,int k){ return (f+1)*8+k*0.25-3; }
static By fieldRaw(const char*nm,uint32_t r,uint32_t c,int type){ By b; le(b,r,4); le(b,c,4); By n(nm); n.resize(15); b+=n; b+=(char)type; return b; }
static By field(const char*nm,int r,int c,int type,int f){ By b=fieldRaw(nm,r,c,type); for(int k=0;k<r*c;k++){ double v=val(f,k); if(type==1){ float q=(float)v; b.append((char*)&q,4); } else b.append((char*)&v,8); } return b; }
// ---- reference reader of the binary format
struct RM{ int r=0,c=0; std::vector<double> v; bool ok()const{ return r>0; } };
struct Rd{ const By&b; size_t p=0; Rd(const By&b):b(b){} bool get(uint64_t&v,int n){ if(p+n>b.size()) return false; v=0; for(int i=0;i<n;i++) v|=(uint64_t)(unsigned char)b[p+i]<<(8*i); p+=n; return true; } };
static bool rfield(Rd&q,RM&m,By&name,int&why){ uint64_t r,c; if(!q.get(r,4)||!q.get(c,4)||q.p+16>q.b.size()) return false; name=By(q.b.c_str()+q.p,strnlen(q.b.c_str()+q.p,15)); q.p+=15; uint64_t t; q.get(t,1); if(!r||!c||r>=0x7fffffff||c>=0x7fffffff) return false; if(t>1) return false; uint64_t es=t?4:8; if((unsigned __int128)r*c*es>q.b.size()-q.p) return false; m.r=(int)r; m.c=(int)c; m.v.clear(); for(uint64_t k=0;k<r*c;k++){ if(t){ float f; memcpy(&f,q.b.data()+q.p,4); m.v.push_back(f); } else { double f; memcpy(&f,q.b.data()+q.p,8); m.v.push_back(f); } q.p+=es; } return true; }
static bool rhdr(Rd&q,int&f,int&c){ uint64_t s,v,a,b; if(!q.get(s,4)||!q.get(v,2)||!q.get(a,2)||!q.get(b,2)) return false; f=(int)a; c=(int)b; return s==0x6c746e6e&&v==0; }
template<class T> static bool same(T a,double e){ T x=(T)e; return memcmp(&a,&x,sizeof(T))==0||a==x||(a!=a&&x!=x); }
template<class M> static void cmpRM(const M&m,const RM&e,bool bias,const char*w){ CK((int)m.rows()==e.r&&(int)m.cols_no_bias()==e.c&&m.emulatesBiases()==bias&&!m.bBatchInRow(),"%s is %dx%d bias=%d, must be %dx%d bias=%d",w,(int)m.rows(),(int)m.cols_no_bias(),m.emulatesBiases(),e.r,e.c,bias); for(int j=0;j<e.c;j++) for(int i=0;i<e.r;i++) CK(same(m.get(i,j),e.v[(size_t)j*e.r+i]),"%s(%d,%d) is %g, the file has %g",w,i,j,(double)m.get(i,j),e.v[(size_t)j*e.r+i]); if(bias) for(int i=0;i<e.r;i++) CK(m.get(i,e.c)==1,"%s: bias of row %d is %g",w,i,(double)m.get(i,e.c)); }
static const char*NM[]={"train_x","train_y","test_x","test_y"};
template<class F> static void guarded(F f){ size_t a0=__sanitizer_get_current_allocated_bytes(); int f0=openFds(); f(); CK(openFds()==f0,"a file handle was left open"); size_t a1=__sanitizer_get_current_allocated_bytes(); CK(a1<=a0,"%ld bytes of memory leaked",(long)(a1-a0)); }
static uint64_t hb(const By&b){ return std::hash<std::string>()(b); }
extern "C" const char* __asan_default_options(){ return "max_allocation_size_mb=16"; }
static int g_oc; static void lastErr(BF&b,BF::ErrorCode ec){ CK(b.get_last_error()==ec,"read() answered %d but the last error is %d",(int)ec,(int)b.get_last_error()); CK(b.get_error_str(ec)!=nullptr,"no text for error %d",(int)ec); }
// read the same bytes into a matrix / training data / sequences
template<class T> static void bMatrix(const By&b,bool deform,bool dirty){ Rd q(b); int f,c; RM e; By nm; int w; bool ok=rhdr(q,f,c)&&f==1&&c==0&&rfield(q,e,nm,w); BF bf; if(dirty){ math::smatrix<T> x; CK(bf.read(put(""),x)==BF::ErrorCode::FailedToReadHeader,"an empty file"); } const char*p=put(b); guarded([&]{ BF::ErrorCode ec; if(deform){ math::smatrix_deform<T> m; ec=bf.read(p,m); CK((ec==BF::ErrorCode::Success)==ok,"read() answered %d, the file is %s",(int)ec,ok?"good":"bad"); if(ok){ cmpRM(m,e,false,"matrix"); CK(m.deform_rows(1)||true,"x"); } } else { math::smatrix<T> m; ec=bf.read(p,m); CK((ec==BF::ErrorCode::Success)==ok,"read() answered %d, the file is %s",(int)ec,ok?"good":"bad"); if(ok) cmpRM(m,e,false,"matrix"); } lastErr(bf,ec); g_oc=ec; }); mc::outcome(g_oc); mc::state(hb(b)*4+deform*2+sizeof(T)/8); mc::op(); }
template<class T> static void bTd(const By&b,bool dirty,bool filled){ Rd q(b); int f,c,w; bool ok=rhdr(q,f,c)&&f==4&&c==0; RM e[4]; for(int k=0;ok&&k<4;k++){ RM m; By nm; ok=rfield(q,m,nm,w); if(!ok) break; int id=-1; for(int n=0;n<4;n++) if(nm==NM[n]) id=n; if(id<0||e[id].ok()) ok=false; else e[id]=m; } ok=ok&&e[0].r==e[1].r&&e[2].r==e[3].r&&e[0].c==e[2].c&&e[1].c==e[3].c;
	BF bf; if(dirty){ math::smatrix<T> x; (void)bf.read(put("zzzz"),x); } guarded([&]{ nntl::inmem_train_data_stor<T,T> td; if(filled){ By g=hdr(4,0); for(int k=0;k<4;k++) g+=field(NM[k],k<2?3:2,1,0,7+k); CK(bf.read(put(g),td)==BF::ErrorCode::Success,"a good file"); } auto ec=bf.read(put(b),td); CK((ec==BF::ErrorCode::Success)==ok,"read() answered %d, the file is %s",(int)ec,ok?"good":"bad"); lastErr(bf,ec); if(ok){ CK(!td.empty(),"no data"); cmpRM(td.train_x(),e[0],true,"train_x"); cmpRM(td.train_y(),e[1],false,"train_y"); cmpRM(td.test_x(),e[2],true,"test_x"); cmpRM(td.test_y(),e[3],false,"test_y"); } else if(!filled) CK(td.empty(),"a failed read left something in the training data"); else { CK(!td.empty()&&td.train_x().rows()==3&&td.test_x().rows()==2,"a failed read destroyed the training data"); for(int i=0;i<3;i++) CK(same(td.train_x().get(i,0),val(7,i))&&same(td.train_y().get(i,0),val(8,i)),"a failed read changed the training data"); } g_oc=100+ec; }); mc::outcome(g_oc); mc::state(hb(b)*8+filled*2+sizeof(T)/8); mc::op(); }
template<class T> struct SD: nntl::seq_data<T>{ auto& stor(){ return this->m_seqStor; } };
template<class T> static void bSeq(const By&b,bool dirty){ Rd q(b); int f,c,w; bool ok=rhdr(q,f,c)&&f>c; std::vector<int> cnt; int tot=0; for(int k=0;ok&&k<c;k++){ uint64_t n; ok=q.get(n,2)&&n>0; cnt.push_back((int)n); tot+=(int)n; } ok=ok&&tot+c==f&&c>0; std::vector<std::vector<RM>> e(ok?c:0); for(int k=0;ok&&k<tot;k++){ RM m; By nm; ok=rfield(q,m,nm,w); if(!ok) break; int id=0,len=0; if(1!=sscanf(nm.c_str(),"c%d%n",&id,&len)||id<1||id>c||(int)e[id-1].size()>=cnt[id-1]) ok=false; else e[id-1].push_back(m); }
	BF bf; if(dirty){ math::smatrix<T> x; (void)bf.read(put(""),x); } guarded([&]{ nntl::seq_data<T> s; auto ec=bf.read(put(b),s); CK((ec==BF::ErrorCode::Success)==ok,"read() answered %d, the file is %s",(int)ec,ok?"good":"bad"); lastErr(bf,ec); if(ok){ CK(!s.empty()&&s.get_class_seq_count().size()==(size_t)c,"classes"); auto&st=static_cast<SD<T>&>(s).stor(); for(int k=0;k<c;k++){ CK((int)s.get_class_seq_count()[k]==cnt[k]&&(int)st[k].size()==cnt[k],"class %d has %d sequences",k,(int)st[k].size()); for(int n=0;n<cnt[k];n++) cmpRM(st[k][n],e[k][n],false,"sequence"); } } else CK(s.empty()||ec!=BF::ErrorCode::Success,"x"); g_oc=200+ec; }); mc::outcome(g_oc); mc::state(hb(b)*2+sizeof(T)/8); mc::op(); }
static By baseM(int t){ return hdr(1,0)+field("any",2,2,t,0); } static By baseTd(int t){ By b=hdr(4,0); static const int R[]={2,2,1,1},C[]={2,1,2,1}; for(int k=0;k<4;k++) b+=field(NM[k],R[k],C[k],(t>>k)&1,k); return b; } static By baseSeq(int t){ By b=hdr(5,2); le(b,1,2); le(b,2,2); b+=field("c2a",1,2,t,0); b+=field("c1",2,1,t^1,1); b+=field("c2",2,2,t,2); return b; }
static void dispatch(int kind,int T,const By&b,bool extra){ if(kind==0) T?bMatrix<float>(b,extra,extra):bMatrix<double>(b,extra,false); else if(kind==1) T?bTd<float>(b,extra,extra):bTd<double>(b,false,extra); else T?bSeq<float>(b,extra):bSeq<double>(b,extra); }
static By base(int kind,int t){ return kind==0?baseM(t):kind==1?baseTd(t?5:0):baseSeq(t); }
SCENARIO(bin_truncated){ g_h.clear(); int kind=mc::choose(3),t=mc::choose(2),T=mc::choose(2),x=mc::choose(2); By b=base(kind,t); int n=mc::choose((int)b.size()+2); mc::shard(); if(n==(int)b.size()+1) b+="tail"; else b.resize(n); H("binary kind=%d type=%d dest=%d length=%d",kind,t,T,n); dispatch(kind,T,b,x); mc::sample("%s",g_h.c_str()); }
SCENARIO(bin_corrupted){ g_h.clear(); int kind=mc::choose(3),t=mc::choose(2),T=mc::choose(2); By b=base(kind,t); int p=mc::choose((int)b.size()); mc::shard(); int v=mc::choose(256); b[p]=(char)v; H("binary kind=%d type=%d dest=%d byte %d = %d",kind,t,T,p,v); dispatch(kind,T,b,(p+v)&1); mc::sample("%s",g_h.c_str()); }
// two corrupted bytes within the structural part, from critical values
SCENARIO(bin_two_bytes){ g_h.clear(); static const int V[]={0,1,2,3,4,0x7f,0x80,0xff,'x','_'}; int kind=mc::choose(3),t=mc::choose(2); By b=base(kind,t); int lim=kind==0?34:kind==1?66:62; lim=std::min(lim,(int)b.size()); int p=mc::choose(lim); mc::shard(); int q=mc::choose(lim); if(q<=p) throw mc::Skip(); int v=V[mc::choose(10)],w=V[mc::choose(mc::thorough()?10:8)]; b[p]=(char)v; b[q]=(char)w; H("binary kind=%d type=%d bytes %d=%d %d=%d",kind,t,p,v,q,w); dispatch(kind,t,b,(p+q)&1); mc::sample("%s",g_h.c_str()); }
SCENARIO(bin_sizes){ g_h.clear(); static const uint32_t V[]={0,1,2,3,0x7ffffffeu,0x7fffffffu,0x80000000u,0x80000001u,0xffffffffu,0x40000001u,0x20000001u,0x10000u,0x3fffffffu}; int kind=mc::choose(3),t=mc::choose(2),T=mc::choose(2); uint32_t r=V[mc::choose(13)],c=V[mc::choose(13)]; mc::shard(); H("binary kind=%d type=%d dest=%d rows=%u cols=%u",kind,t,T,r,c); By b; if(kind==0) b=hdr(1,0)+fieldRaw("m",r,c,t)+By(64,'\1'); else if(kind==1){ b=hdr(4,0); int which=mc::choose(4); for(int k=0;k<4;k++) b+=k==which?fieldRaw(NM[k],r,c,t)+By(64,'\1'):field(NM[k],2,1,0,k); } else { b=hdr(2,1); le(b,1,2); b+=fieldRaw("c1",r,c,t)+By(64,'\1'); } dispatch(kind,T,b,r&1); mc::sample("%s",g_h.c_str()); }
// well-formed training data: all shapes, types, field orders, missing / repeated / renamed fields
SCENARIO(bin_td){ g_h.clear(); int ord=mc::choose(24),T=mc::choose(2),def=mc::choose(6); mc::shard(); int p[4],used=0; for(int k=0,o=ord;k<4;k++){ int n=o%(4-k); o/=(4-k); for(int j=0;j<4;j++) if(!((used>>j)&1)&&n--==0){ p[k]=j; used|=1<<j; break; } } int rt=1+mc::choose(3),re=1+mc::choose(2),cx=1+mc::choose(2),cy=1+mc::choose(2),ty=mc::choose(16); H("training data order=%d dest=%d defect=%d rows=%d/%d cols=%d/%d types=%d",ord,T,def,rt,re,cx,cy,ty); By b=hdr(def==5?3:4,def==4?1:0); for(int k=0;k<4;k++){ int f=p[k]; const char*n=NM[f]; if(def==1&&k==3) n=NM[p[0]]; if(def==2&&k==2) n="train_z"; int r=f<2?rt:re,c=f&1?cy:cx; if(def==3&&k==1) r++; b+=field(n,r,c,(ty>>f)&1,f); } T?bTd<float>(b,false,ord&1):bTd<double>(b,true,ord&1); mc::sample("%s",g_h.c_str()); }
SCENARIO(bin_seq){ g_h.clear(); int nc=mc::choose(4),T=mc::choose(2); int cnt[3],tot=0; for(int k=0;k<nc;k++){ cnt[k]=mc::choose(3); tot+=cnt[k]; } int off=mc::choose(3)-1; mc::shard(); H("sequences classes=%d total=%d off=%d",nc,tot,off); By b=hdr(std::max(0,tot+nc+off),nc); for(int k=0;k<nc;k++) le(b,cnt[k],2); for(int n=0;n<tot;n++){ int cl=mc::choose(nc+2); char nm[16]; snprintf(nm,16,cl==nc+1?"q%d":"c%d%s",cl,n&1?"_z":""); b+=field(nm,1+n%2,1+n%3,n&1,n); } T?bSeq<float>(b,false):bSeq<double>(b,true); mc::sample("%s",g_h.c_str()); }
SCENARIO(no_file){ g_h="no file"; mc::shard(); mc::state(1); mc::op(); BF bf; JR jr; math::smatrix<double> m; guarded([&]{ CK(bf.read("/proc/self/fd/none",m)==BF::ErrorCode::FailedToOpenFile&&bf.get_last_error()==BF::ErrorCode::FailedToOpenFile,"binfile"); CK(jr.read("/proc/self/fd/none",m)==JR::ErrorCode::FailedToOpenFile&&jr.get_last_error()==JR::ErrorCode::FailedToOpenFile,"jsonreader"); CK(m.empty(),"data out of nothing"); }); }
// ---- JSON
struct JV{ enum K{ None, Obj, Num, Str, EmptyArr, Vec, Mtx, Ragged, VecBad, MtxBad, MixA, MixB, EmptyRows } k; };
static By num(int f,int k){ char b[40]; static const char*F[]={"%g","%.17g","%e"}; snprintf(b,40,F[(f+k)%3],val(f,k)); return b; }
static By jval(int kind,int f,int r,int c,RM&e){ By s; auto vec=[&](int n,int from,int bad){ By q="["; for(int i=0;i<n;i++){ if(i) q+=","; q+=i==bad?By(f&1?"null":"\"1\""):num(f,from+i); } return q+"]"; }; e=RM(); switch(kind){ case 1: return "{}"; case 2: return "5"; case 3: return "\"x\""; case 4: return "[]"; case 5: e.r=r; e.c=1; for(int i=0;i<r;i++) e.v.push_back(val(f,i)); return vec(r,0,-1); case 6: case 7: case 9: case 10: e.r=r; e.c=c; for(int k=0;k<r*c;k++) e.v.push_back(val(f,k)); s="["; for(int j=0;j<c;j++){ if(j) s+=" , "; if(kind==10&&j==c-1&&c>1){ s+="7"; e=RM(); } else if(kind==7&&j==c-1&&c>1){ s+=vec(r+(f&1?1:-1),j*r,-1); e=RM(); } else if(kind==9&&j==c-1){ s+=vec(r,j*r,r-1); e=RM(); } else s+=vec(r,j*r,-1); } return s+"]"; case 8: return vec(r,0,r-1); case 11: return "["+num(f,0)+",[1]]"; case 12: return "[[],[]]"; } return ""; }
typedef JR::ErrorCode JE;
template<class T> static void jMatrix(const By&doc,JE want,const RM&e,bool bias){ guarded([&]{ JR jr; jr.m_readBufSize=64; math::smatrix<T> m; auto ec=jr.read(put(doc),m,bias); CK(ec==want,"read() answered %d (%s), must answer %d",(int)ec,jr.get_last_error_string().c_str(),(int)want); CK(jr.get_last_error()==ec,"last error"); if(ec==JR::ErrorCode::Success) cmpRM(m,e,bias,"matrix"); }); mc::outcome(300+want); mc::state(hb(doc)*4+bias*2+sizeof(T)/8); mc::op(); }
template<class T> static void jTd(const By&doc,JE want,const RM*e){ guarded([&]{ JR jr; jr.m_readBufSize=64; nntl::inmem_train_data_stor<T,T> td; auto ec=jr.read(put(doc),td); CK(ec==want,"read() answered %d (%s), must answer %d",(int)ec,jr.get_last_error_string().c_str(),(int)want); CK(jr.get_last_error()==ec,"last error"); if(ec==JR::ErrorCode::Success){ cmpRM(td.train_x(),e[0],true,"train_x"); cmpRM(td.train_y(),e[1],false,"train_y"); cmpRM(td.test_x(),e[2],true,"test_x"); cmpRM(td.test_y(),e[3],false,"test_y"); } else CK(td.empty(),"a failed read left something in the training data"); }); mc::outcome(400+want); mc::state(hb(doc)*2+sizeof(T)/8); mc::op(); }
static JE bad(int f,bool absent){ return (JE)((int)(absent?JR::ErrorCode::NoTrainX:JR::ErrorCode::InvalidTrainX)+f); }
SCENARIO(json_grammar){ g_h.clear(); int which=mc::choose(4),kind=mc::choose(13),T=mc::choose(2),ord=mc::choose(2); mc::shard(); int r[2]={1+mc::choose(3),1+mc::choose(2)},c[2]={1+mc::choose(3),1+mc::choose(2)}; int mis=mc::choose(3); H("json field=%d kind=%d dest=%d order=%d rows=%d/%d cols=%d/%d mismatch=%d",which,kind,T,ord,r[0],r[1],c[0],c[1],mis); RM e[4]; By part[4]; bool absent[4]={}; for(int f=0;f<4;f++){ int rr=r[f/2]+(mis==1&&f==3),cc=c[f&1]+(mis==2&&f==2); int k=f==which?kind:6; part[f]=jval(k,f,rr,cc,e[f]); if(k==0) absent[f]=true; if(k==7&&cc==1) {} }
	By d="{"; bool first=true; for(int q=0;q<4;q++){ int f=ord?3-q:q; if(absent[f]) continue; if(!first) d+=",\n"; first=false; d+=By("\"")+NM[f]+"\" : "+part[f]; } d+="}"; JE want=JR::ErrorCode::Success; for(int f=0;f<4&&want==JR::ErrorCode::Success;f++) if(!e[f].ok()) want=bad(f,absent[f]); RM e0=e[0]; JE w0=absent[0]?JR::ErrorCode::NoTrainX:e[0].ok()?JR::ErrorCode::Success:JR::ErrorCode::InvalidTrainX; if(want==JR::ErrorCode::Success&&!(e[0].r==e[1].r&&e[2].r==e[3].r&&e[0].c==e[2].c&&e[1].c==e[3].c)) want=JR::ErrorCode::MismatchingDataLength; T?jTd<float>(d,want,e):jTd<double>(d,want,e); jMatrix<double>(d,w0,e0,ord); mc::sample("%s",g_h.c_str()); }
static By jbase(RM*e){ By d="{"; static const int R[]={2,2,1,1},C[]={2,1,2,1}; for(int f=0;f<4;f++){ if(f) d+=","; d+=By("\"")+NM[f]+"\":"+jval(6,f,R[f],C[f],e[f]); } return d+"}"; }
SCENARIO(json_truncated){ g_h.clear(); RM e[4]; By d=jbase(e); int n=mc::choose((int)d.size()+1); mc::shard(); bool full=n==(int)d.size(); d.resize(n); H("json truncated at %d",n); JE w=full?JR::ErrorCode::Success:JR::ErrorCode::FailedToParseJson; jTd<double>(d,w,e); jMatrix<float>(d,w,e[0],n&1); static const char*ROOT[]={"[]","5","null","\"s\"","[{\"train_x\":[1]}]"}; int k=mc::choose(5); jTd<double>(ROOT[k],JR::ErrorCode::RootIsNotAnObject,e); jMatrix<double>(ROOT[k],JR::ErrorCode::RootIsNotAnObject,e[0],false); mc::sample("%s",g_h.c_str()); }
// any corrupted byte: judged by an independent walk over the document as the JSON library parses it
static JE walk(const By&d,RM*e,int n){ rapidjson::Document o; alignas(64) static char buf[4096]; memset(buf,0,sizeof buf); memcpy(buf,d.data(),d.size()); rapidjson::MemoryStream ms(buf,d.size()); o.ParseStream<rapidjson::kParseFullPrecisionFlag>(ms); if(d.find('\0')!=By::npos) return (JE)-1; if(o.HasParseError()) return JR::ErrorCode::FailedToParseJson; if(!o.IsObject()) return JR::ErrorCode::RootIsNotAnObject; for(int f=0;f<n;f++){ e[f]=RM(); const rapidjson::Value*v=nullptr; for(auto it=o.MemberBegin();it!=o.MemberEnd();++it) if(By(it->name.GetString(),it->name.GetStringLength())==NM[f]){ v=&it->value; break; } if(!v) return bad(f,true); if(!v->IsArray()||!v->Size()) return bad(f,false); bool m=(*v)[0].IsArray(); RM x; x.c=m?(int)v->Size():1; x.r=m?(int)(*v)[0].Size():(int)v->Size(); if(!x.r) return bad(f,false); for(unsigned j=0;j<v->Size();j++){ const auto&q=(*v)[j]; if(m){ if(!q.IsArray()||(int)q.Size()!=x.r) return bad(f,false); for(auto&z:q.GetArray()){ if(!z.IsNumber()) return bad(f,false); x.v.push_back(z.GetDouble()); } } else { if(!q.IsNumber()) return bad(f,false); x.v.push_back(q.GetDouble()); } } e[f]=x; } return JR::ErrorCode::Success; }
SCENARIO(json_corrupted){ g_h.clear(); RM e[4]; By d=jbase(e); int p=mc::choose((int)d.size()); mc::shard(); int v=1+mc::choose(255); d[p]=(char)v; H("json byte %d = %d",p,v); JE w0=walk(d,e,1); RM e0=e[0]; JE w=walk(d,e,4); if(w==JR::ErrorCode::Success&&!(e[0].r==e[1].r&&e[2].r==e[3].r&&e[0].c==e[2].c&&e[1].c==e[3].c)) w=JR::ErrorCode::MismatchingDataLength; jTd<double>(d,w,e); jMatrix<double>(d,w0,e0,v&1); mc::sample("%s",g_h.c_str()); }
// integral destinations: a number that the destination can not hold exactly must be refused
template<class T> static void jInt(const char*lit,int form){ const long double x=strtold(lit,nullptr); const bool fits=x==floorl(x)&&x>=(long double)std::numeric_limits<T>::min()&&x<=(long double)std::numeric_limits<T>::max(); By d="{\"train_x\":"; d+=form==0?"["+By(lit)+"]":form==1?"[1,"+By(lit)+",0]":form==2?"[["+By(lit)+",1],[0,1]]":"[[1],[0],["+By(lit)+"]]"; d+="}"; const JE want=fits?JR::ErrorCode::Success:JR::ErrorCode::InvalidTrainX; guarded([&]{ JR jr; jr.m_readBufSize=64; math::smatrix<T> m; auto ec=jr.read(put(d),m,false); CK(ec==want,"read() of %s answered %d, must answer %d",lit,(int)ec,(int)want); CK(jr.get_last_error()==ec,"last error"); if(ec==JR::ErrorCode::Success){ const int r[]={1,3,2,1},c[]={1,1,2,3}; CK(m.rows()==r[form]&&m.cols()==c[form],"dimensions"); const T v=form==0?m.get(0,0):form==1?m.get(1,0):form==2?m.get(0,0):m.get(0,2); CK((long double)v==x,"%s was read as another number",lit); CK(form==0||(form==1?m.get(0,0)==1&&m.get(2,0)==0:form==2?m.get(1,0)==1&&m.get(0,1)==0&&m.get(1,1)==1:m.get(0,0)==1&&m.get(0,1)==0),"other elements"); } else CK(m.empty(),"a failed read left a matrix"); }); mc::outcome(500+fits*8+sizeof(T)); mc::state(hb(d)*16+sizeof(T)*2+std::is_signed<T>::value); mc::op(); }
SCENARIO(json_integral){ g_h.clear(); static const char*L[]={"0","1","-1","-0","2.0","1.5","-0.25","2e1","1e-1","127","128","-128","-129","255","256","32767","2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","9007199254740993","9223372036854775807","9223372036854775808","-9223372036854775808","18446744073709551615","1e19","1e300","-1e300"}; int l=mc::choose((int)(sizeof L/sizeof*L)),form=mc::choose(4),t=mc::choose(6); mc::shard(); H("json number %s form=%d type=%d",L[l],form,t); switch(t){ case 0: jInt<int32_t>(L[l],form); break; case 1: jInt<uint32_t>(L[l],form); break; case 2: jInt<int8_t>(L[l],form); break; case 3: jInt<uint8_t>(L[l],form); break; case 4: jInt<int64_t>(L[l],form); break; default: jInt<uint64_t>(L[l],form); } mc::sample("%s",g_h.c_str()); }
