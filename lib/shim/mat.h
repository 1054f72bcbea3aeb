// Stand-in for the MATLAB C API (libmx/libmat) as far as nntl uses it: arrays and .mat files live in memory. Every call that can
// fail asks mxf::fail(), live arrays are counted, misuse is reported.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstring>
#include <cstdlib>
enum mxClassID{ mxUNKNOWN_CLASS=0,mxCELL_CLASS,mxSTRUCT_CLASS,mxLOGICAL_CLASS,mxCHAR_CLASS,mxVOID_CLASS,mxDOUBLE_CLASS,mxSINGLE_CLASS,mxINT8_CLASS,mxUINT8_CLASS,mxINT16_CLASS,mxUINT16_CLASS,mxINT32_CLASS,mxUINT32_CLASS,mxINT64_CLASS,mxUINT64_CLASS };
enum mxComplexity{ mxREAL=0,mxCOMPLEX };
struct mxArray{ mxClassID id; size_t m,n; std::vector<unsigned char> d; std::vector<std::pair<std::string,mxArray*>> f; mxArray*owner=nullptr; };
namespace mxf{
	inline long&live(){ static long v; return v; } inline int&opens(){ static int v; return v; } inline int&countdown(){ static int v=-1; return v; } inline int&calls(){ static int v; return v; } inline std::string&misuse(){ static std::string s; return s; } inline const char*&failed(){ static const char*s=""; return s; }
	inline bool fail(const char*what){ calls()++; if(countdown()>0&&--countdown()==0){ failed()=what; return true; } return false; }
	inline void bad(const char*w){ if(misuse().empty()) misuse()=w; }
	typedef std::vector<std::pair<std::string,mxArray*>> Vars; inline std::map<std::string,Vars>&files(){ static std::map<std::string,Vars> m; return m; }
	inline size_t esz(mxClassID i){ switch(i){ case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxSTRUCT_CLASS: case mxCELL_CLASS: return 0; default: return 1; } }
	inline mxArray*make(mxClassID id,size_t m,size_t n){ auto*a=new mxArray; a->id=id; a->m=m; a->n=n; a->d.assign(m*n*esz(id),0); live()++; return a; }
	inline void destroy(mxArray*a){ if(!a) return; for(auto&q:a->f) destroy(q.second); live()--; delete a; }
	inline mxArray*clone(const mxArray*a){ auto*r=make(a->id,a->m,a->n); r->d=a->d; for(auto&q:a->f){ mxArray*c=q.second?clone(q.second):nullptr; if(c) c->owner=r; r->f.push_back({q.first,c}); } return r; }
	inline void wipe(){ for(auto&f:files()) for(auto&v:f.second) destroy(v.second); files().clear(); }
	inline mxArray*find(Vars&v,const char*n){ for(auto&q:v) if(q.first==n) return q.second; return nullptr; }
	inline void put(Vars&v,const char*n,mxArray*a){ for(auto&q:v) if(q.first==n){ destroy(q.second); q.second=a; return; } v.push_back({n,a}); }
}
struct MATFile{ std::string n; char mode; };
inline mxArray*mxCreateNumericMatrix(size_t m,size_t n,mxClassID id,mxComplexity){ return mxf::fail("mxCreateNumericMatrix")?nullptr:mxf::make(id,m,n); }
inline mxArray*mxCreateLogicalMatrix(size_t m,size_t n){ return mxf::fail("mxCreateLogicalMatrix")?nullptr:mxf::make(mxLOGICAL_CLASS,m,n); }
inline mxArray*mxCreateStructMatrix(size_t m,size_t n,int,const char**){ return mxf::fail("mxCreateStructMatrix")?nullptr:mxf::make(mxSTRUCT_CLASS,m,n); }
inline void mxDestroyArray(mxArray*a){ if(a&&a->owner) mxf::bad("mxDestroyArray() of an array that still is a field of a struct"); mxf::destroy(a); }
inline void*mxGetData(const mxArray*a){ return const_cast<unsigned char*>(a->d.data()); }
inline size_t mxGetM(const mxArray*a){ return a->m; } inline size_t mxGetN(const mxArray*a){ return a->n; } inline mxClassID mxGetClassID(const mxArray*a){ return a->id; }
inline size_t mxGetElementSize(const mxArray*a){ return mxf::esz(a->id); }
inline bool mxIsStruct(const mxArray*a){ return a->id==mxSTRUCT_CLASS; } inline bool mxIsLogical(const mxArray*a){ return a->id==mxLOGICAL_CLASS; } inline bool mxIsNumeric(const mxArray*a){ return a->id>=mxDOUBLE_CLASS; }
inline int mxGetFieldNumber(const mxArray*a,const char*n){ for(size_t i=0;i<a->f.size();i++) if(a->f[i].first==n) return (int)i; return -1; }
inline int mxAddField(mxArray*a,const char*n){ if(mxf::fail("mxAddField")) return -1; int k=mxGetFieldNumber(a,n); if(k>=0) return k; a->f.push_back({n,nullptr}); return (int)a->f.size()-1; }
inline mxArray*mxGetFieldByNumber(const mxArray*a,size_t,int k){ if(k<0||k>=(int)a->f.size()) return nullptr; mxArray*r=a->f[k].second; if(r) r->owner=nullptr; return r; }
inline mxArray*mxGetField(const mxArray*a,size_t,const char*n){ int k=mxGetFieldNumber(a,n); return k<0?nullptr:a->f[k].second; }
inline void mxSetFieldByNumber(mxArray*a,size_t,int k,mxArray*v){ if(v->owner) mxf::bad("an array became a field of two structs"); if(v==a) mxf::bad("a struct became a field of itself"); v->owner=a; a->f[k].second=v; }
inline void touch_(const char*n){ FILE*f=fopen(n,"wb"); if(f) fclose(f); }
inline MATFile*matOpen(const char*n,const char*mode){ if(mxf::fail("matOpen")) return nullptr; auto&F=mxf::files(); if(mode[0]=='w'){ for(auto&v:F[n]) mxf::destroy(v.second); F[n].clear(); touch_(n); } else if(!F.count(n)) return nullptr; mxf::opens()++; return new MATFile{n,mode[0]}; }
inline int matClose(MATFile*f){ if(!f){ mxf::bad("matClose(NULL)"); return 1; } mxf::opens()--; delete f; return mxf::fail("matClose"); }
inline int matPutVariable(MATFile*f,const char*n,const mxArray*a){ if(f->mode=='r'||mxf::fail("matPutVariable")) return 1; if(!*n) return 1; mxf::put(mxf::files()[f->n],n,mxf::clone(a)); return 0; }
inline mxArray*matGetVariable(MATFile*f,const char*n){ if(f->mode=='w'||mxf::fail("matGetVariable")) return nullptr; auto*a=mxf::find(mxf::files()[f->n],n); return a?mxf::clone(a):nullptr; }
