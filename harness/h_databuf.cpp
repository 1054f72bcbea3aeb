// ring buffer between background producers and one consumer: explicit-state search over all operation interleavings
#include "nn.hpp"
#include "nntl/interface/threads/bgworkers.h"
#include "nntl/utils/data_buffer.h"
#include "mc.hpp"
#include <deque>
#include <set>
using namespace nntl;
typedef double real_t;
template<class SyncV> struct Sys {
	typedef utils::DataBuffer<real_t,SyncV> Buf; typedef typename Buf::BufferRange_t BR;
	struct St { std::vector<unsigned char> obj; std::vector<real_t> mem; std::vector<int> claims; // outstanding claims
		int acq=0; BR br; long head=1, tail=1; /* live values are [head,tail) */ std::string path; };
	int total; real_t* mem; alignas(64) unsigned char raw[512]; Buf* b;
	void load(const St&s){ memcpy(raw,s.obj.data(),sizeof(Buf)); memcpy(mem,s.mem.data(),total*sizeof(real_t)); }
	void save(St&s){ s.obj.assign(raw,raw+sizeof(Buf)); s.mem.assign(mem,mem+total); }
	std::string key(const St&s){ std::string k((const char*)s.obj.data(),s.obj.size()); for(auto v:s.mem){ long r=(long)v; k+= (r>=s.head&&r<s.tail)?(char)(r-s.head+1):(char)0; } k+='|'; auto c=s.claims; std::sort(c.begin(),c.end()); for(int x:c) k+=(char)x; k+='|'; k+=(char)s.acq; k+=(char)(s.tail-s.head); if(s.acq){ k+=(char)s.br.n1; k+=(char)(s.br.ptr1-mem); k+=s.br.isTwoArrays()?(char)s.br.n2:(char)-1; } return k; }
	void run(int tot,int maxClaims,size_t maxStates){
		total=tot; mem=new real_t[total](); memset(raw,0,sizeof raw); b=new(raw) Buf(mem,total); CHECK(b->isInitialized(),"");
		std::set<std::string> seen; std::deque<St> q; St s0; save(s0); seen.insert(key(s0)); q.push_back(s0);
		auto push=[&](St&n){ mc::op(); CHECK((load(n),b->TestState()),"internal state check fails after %s",n.path.c_str()); auto k=key(n); if(seen.insert(k).second){ mc::state(mc::hbytes(k.data(),k.size(),total)); q.push_back(n); if(seen.size()>maxStates) mc::fail("state space larger than %zu: bound must be adjusted",maxStates); } };
		while(!q.empty()){ St s=std::move(q.front()); q.pop_front(); if(s.path.size()>700) continue;
			int out=0; for(int c:s.claims) out+=c; int len=(int)(s.tail-s.head);
			// a producer asks for work
			if((int)s.claims.size()<maxClaims) for(int n=1;n<=total+1;n++){ load(s); size_t r=b->_as_should_work(n); St t=s; t.path+=" claim"+std::to_string(n)+"="+std::to_string(r); int freeN=total-len-out;
				CHECK((int)r<=n && (int)r<=freeN,"a producer was told to make %d values, but only %d fit:%s",(int)r,freeN,t.path.c_str()); CHECK(r>0||freeN==0,"the buffer has room for %d values, but producers are told to idle:%s",freeN,t.path.c_str());
				if(r) t.claims.push_back((int)r); save(t); push(t); mc::outcome(1000+r); }
			// a producer delivers
			for(size_t i=0;i<s.claims.size();i++){ load(s); St t=s; int n=s.claims[i]; t.claims.erase(t.claims.begin()+i); std::vector<real_t> v(n); for(int k=0;k<n;k++) v[k]=(real_t)(s.tail+k); b->_as_done(v.data(),n); t.tail+=n; t.path+=" done"+std::to_string(n); save(t); push(t); }
			if(!s.acq) for(int n=0;n<=total;n++){ load(s); BR br=b->acquire_data(n); St t=s; t.path+=" acquire"+std::to_string(n)+(br.acquired()?"+":"-");
				CHECK(br.acquired()==(n>0&&n<=len),"%d values are available, %d were requested, acquired=%d:%s",len,n,(int)br.acquired(),t.path.c_str());
				if(br.acquired()){ size_t n1=br.n1,n2=br.isTwoArrays()?br.n2:0; CHECK((int)(n1+n2)==n,"asked for %d, got %d+%d:%s",n,(int)n1,(int)n2,t.path.c_str());
					CHECK(br.ptr1>=mem&&br.ptr1+n1<=mem+total&&(!n2||(br.ptr2>=mem&&br.ptr2+n2<=mem+total)),"range outside of the buffer:%s",t.path.c_str());
					utils::CircBufferFeeder<real_t,0> f(br); for(int k=0;k<n;k++){ real_t e=(real_t)(s.head+k); real_t g=(size_t)k<n1?br.ptr1[k]:br.ptr2[k-n1]; CHECK(g==e,"value %d of the acquired range is not the %d-th oldest value (%g vs %g):%s",k,k,g,e,t.path.c_str()); real_t h=f.next(0); CHECK(h==e,"feeder: value %d is %g, expected %g:%s",k,h,e,t.path.c_str()); }
					t.acq=n; t.br=br; mc::outcome(n*10+(n2?1:0)); }
				save(t); push(t); }
			else { // values stay intact while acquired
				for(int k=0;k<s.acq;k++){ load(s); size_t n1=s.br.n1; real_t g=(size_t)k<n1?s.br.ptr1[k]:s.br.ptr2[k-n1]; CHECK(g==(real_t)(s.head+k),"an acquired value was overwritten by a producer:%s",s.path.c_str()); }
				for(int k=1;k<=s.acq;k++){ load(s); St t=s; if(k==s.acq) b->release_data(s.br); else { utils::CircBufferFeeder<real_t,0> f(s.br); for(int i=0;i<k;i++) f.next(0); f.shrink(); b->release_data(f); }
					t.acq=0; t.br=BR(); t.head+=k; t.path+=" release"+std::to_string(k); save(t); push(t); } }
		}
		mc::note("states_total_"+std::to_string(tot),seen.size()); b->~Buf(); delete[] mem; }
};
template<class V> static void go(){ int tot=1+mc::choose(mc::thorough()?7:5); mc::shard(); Sys<V> s; s.run(tot,mc::thorough()?3:(tot<5?3:2),3000000); }
SCENARIO(ring_spinlock){ go<void>(); }
SCENARIO(ring_std){ go<threads::std_sync_primitives>(); }
int main(int c,char**v){ return mc::run_main(c,v); }
