// Exhaustive in-process explorer: every scenario is a function that draws all its nondeterminism from
// mc::choose(n); the explorer re-runs it for every sequence of choices (depth-first, lexicographic order).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <chrono>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

namespace mc {
struct Skip {};
struct Scn { const char* name; void(*fn)(); };
inline std::vector<Scn>& scns(){ static std::vector<Scn> v; return v; }
struct Reg { Reg(const char* n, void(*f)()){ scns().push_back({n,f}); } };

struct Trail{ char scn[64]; uint64_t execs; int n; int pick[16000]; };
struct Ctx {
	std::vector<int> pick, lim; size_t pos=0, start=0; uint64_t runno=0; std::map<std::string,std::map<uint64_t,int>> vis; uint64_t merged=0; bool replaying=false; 
	uint64_t execs=0, ops=0, shardcnt=0, checks=0; int shard=0, nshards=1; bool thorough=false; bool sharded=false; int depth_at_shard=0;
	std::unordered_set<uint64_t> states, outcomes;
	std::map<std::string,uint64_t> per; std::map<std::string,uint64_t> notes;
	std::vector<std::string> samples; std::string sample;
	const char* scn=""; char* trail=nullptr; const char* stats=nullptr; double t0=0, deadline=1e18; bool capped=false; size_t maxdepth=0;
	std::vector<std::string> labels; std::map<std::string,std::string> known;
};
inline Ctx& C(){ static Ctx c; return c; }
inline double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline bool thorough(){ return C().thorough; }

inline void save_trail(){ auto&c=C(); if(!c.trail) return; auto*t=(Trail*)c.trail; strncpy(t->scn,c.scn,63); t->execs=c.execs; t->n=(int)c.pos; }
inline std::string choices(){ std::string s; auto&c=C(); for(size_t i=0;i<c.pos;i++){ if(i)s+=','; s+=std::to_string(c.pick[i]); } return s; }
inline int choose(int n, const char* =nullptr){
	auto&c=C(); if(n<=0){ fprintf(stderr,"mc::choose(%d)\n",n); _exit(4);} 
	if(c.pos==c.pick.size()){ if(c.replaying){ c.pick.push_back(0);} else c.pick.push_back(0); c.lim.push_back(n);} 
	else if(c.pos<c.lim.size()){ if(c.lim[c.pos]!=n){ fprintf(stderr,"mc: nondeterministic scenario %s at choice %zu (%d vs %d) [%s]\n",c.scn,c.pos,c.lim[c.pos],n,choices().c_str()); _exit(4);} }
	else { c.lim.push_back(n); if(c.pick[c.pos]>=n){ fprintf(stderr,"mc: replay choice out of range\n"); _exit(4);} }
	int r=c.pick[c.pos++]; if(c.pos>c.maxdepth)c.maxdepth=c.pos;
	if(c.trail && c.pos<=16000){ auto*t=(Trail*)c.trail; t->pick[c.pos-1]=r; t->n=(int)c.pos; }
	return r;
}
// Distribution over processes: called after the first choices of a scenario; the sub-tree is run by one shard only.
inline void shard(){ auto&c=C(); save_trail(); if(c.replaying||c.nshards<=1) return; c.sharded=true; 
	// the sub-tree identity is the choice prefix up to here
	uint64_t h=1469598103934665603ull; for(size_t i=0;i<c.pos;i++){ h^=(uint64_t)c.pick[i]+1; h*=1099511628211ull; h^=h>>29; }
	if((int)((h>>7)%(uint64_t)c.nshards)!=c.shard) throw Skip(); }
inline void trail(){ save_trail(); }
struct Merged {};
// explicit-state search: the state `h`, from which `remaining` more steps will be explored. A state that was already
// reached by this process with at least as many steps to go is not explored again (its futures were).
inline void state(uint64_t h);
inline void visit(uint64_t h,int remaining){ auto&c=C(); state(h); if(c.replaying||c.pos<c.start) return; auto&m=c.vis[c.scn]; auto it=m.find(h); if(it==m.end()) m[h]=remaining; else if(it->second>=remaining){ c.merged++; throw Merged(); } else it->second=remaining; }
inline uint64_t hmix(uint64_t h,uint64_t v){ h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>32; return h; }
inline uint64_t hbytes(const void*p,size_t n,uint64_t h=0x1234567){ auto b=(const unsigned char*)p; for(size_t i=0;i<n;i++) h=hmix(h,b[i]); return h; }
inline void op(uint64_t n=1){ C().ops+=n; }
inline void state(uint64_t h){ auto&s=C().states; if(s.size()<4000000) s.insert(h); }
inline void outcome(uint64_t h){ auto&s=C().outcomes; if(s.size()<2000000) s.insert(h); }
inline void note(const std::string&k,uint64_t n=1){ C().notes[k]+=n; }
inline void sample(const char* f,...){ auto&c=C(); if(c.samples.size()>=4) return; char b[400]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); c.samples.push_back(b); }
inline std::string jstr(const std::string&s){ std::string r="\""; for(unsigned char ch:s){ if(ch=='"'||ch=='\\'){r+='\\';r+=ch;} else if(ch<32||ch>126){char b[8];sprintf(b,"\\u%04x",ch);r+=b;} else r+=ch;} return r+"\""; }
inline void dump_stats(const char* fail){
	auto&c=C(); if(!c.stats) return; FILE*f=fopen(c.stats,"w"); if(!f) return;
	fprintf(f,"{\"execs\":%llu,\"ops\":%llu,\"checks\":%llu,\"states\":%zu,\"outcomes\":%zu,\"maxdepth\":%zu,\"capped\":%s,\"wall\":%.3f,\"per\":{",(unsigned long long)c.execs,(unsigned long long)c.ops,(unsigned long long)c.checks,c.states.size(),c.outcomes.size(),c.maxdepth,c.capped?"true":"false",now()-c.t0);
	bool first=true; for(auto&p:c.per){ fprintf(f,"%s%s:%llu",first?"":",",jstr(p.first).c_str(),(unsigned long long)p.second); first=false; }
	if(c.merged) c.notes["paths merged at an already explored state"]=c.merged;
	fprintf(f,"},\"notes\":{"); first=true; for(auto&p:c.notes){ fprintf(f,"%s%s:%llu",first?"":",",jstr(p.first).c_str(),(unsigned long long)p.second); first=false; }
	fprintf(f,"},\"known\":{"); first=true; for(auto&p:c.known){ fprintf(f,"%s%s:%s",first?"":",",jstr(p.first).c_str(),jstr(p.second).c_str()); first=false; }
	fprintf(f,"},\"samples\":["); first=true; for(auto&s:c.samples){ fprintf(f,"%s%s",first?"":",",jstr(s).c_str()); first=false; }
	fprintf(f,"]"); if(fail) fprintf(f,",\"fail\":%s,\"scenario\":%s,\"choices\":%s",jstr(fail).c_str(),jstr(c.scn).c_str(),jstr(choices()).c_str());
	fprintf(f,"}\n"); fclose(f);
}
[[noreturn]] inline void fail(const char* f,...){
	char b[2000]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a);
	printf("MCFAIL scenario=%s choices=%s : %s\n",C().scn,choices().c_str(),b); fflush(stdout); dump_stats(b); _exit(9);
}
// a defect of the code that is recorded in KNOWN_FINDINGS.txt (vc.py passes the identifiers): reported, not judged. Anything else is a violation.
inline void known(const char* id,const char* what){ const char* l=getenv("VC_KNOWN"); std::string k=std::string(",")+(l?l:"")+","; if(k.find(std::string(",")+id+",")==std::string::npos) fail("%s",what); C().known[id]=what; }
inline int run_main(int argc,char**argv){
	auto&c=C(); const char* only=nullptr; const char* rep=nullptr; c.t0=now();
	for(int i=1;i<argc;i++){ std::string a=argv[i]; 
		if(a=="--shard"){ sscanf(argv[++i],"%d/%d",&c.shard,&c.nshards);} else if(a=="--tier") c.thorough=!strcmp(argv[++i],"thorough");
		else if(a=="--stats") c.stats=argv[++i]; else if(a=="--scenario") only=argv[++i]; else if(a=="--replay") rep=argv[++i];
		else if(a=="--deadline") c.deadline=now()+atof(argv[++i]);
		else if(a=="--list"){ for(auto&s:scns()) puts(s.name); return 0; }
		else if(a=="--trail"){ int fd=open(argv[++i],O_RDWR|O_CREAT|O_TRUNC,0644); if(ftruncate(fd,1<<16)){} c.trail=(char*)mmap(0,1<<16,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); }
	}
	if(rep){ c.replaying=true; for(auto&s:scns()) if(!only||!strcmp(only,s.name)){ c.scn=s.name; const char*p=rep; while(*p){ c.pick.push_back(strtol(p,(char**)&p,10)); if(*p==',')p++; } try{ s.fn(); }catch(Skip&){}catch(Merged&){} break; } puts("replay: no violation"); return 0; }
	for(auto&s:scns()){
		if(only&&strcmp(only,s.name)) continue; c.scn=s.name; c.pick.clear(); c.lim.clear(); uint64_t e0=c.execs; bool any_shard=false;
		for(;;){
			c.pos=0; c.runno++; c.start=c.pick.size(); c.sharded=false; save_trail(); bool skipped=false;
			try{ s.fn(); }catch(Skip&){ skipped=true; }catch(Merged&){}
			if(c.sharded) any_shard=true;
			if(!skipped) c.execs++;
			if(!any_shard && c.nshards>1){ // scenario without a shard point: one shard runs it
				if((int)(hbytes(s.name,strlen(s.name))%(uint64_t)c.nshards)!=c.shard){ c.execs=e0; break; } }
			c.pick.resize(c.pos); c.lim.resize(c.pos);
			while(!c.pick.empty() && c.pick.back()+1>=c.lim.back()){ c.pick.pop_back(); c.lim.pop_back(); }
			if(c.pick.empty()) break; c.pick.back()++;
			if((c.execs&15)==0 && now()>c.deadline){ c.capped=true; c.notes[std::string("capped:")+s.name]++; break; }
		}
		c.per[s.name]+=c.execs-e0;
	}
	dump_stats(nullptr); return 0;
}
}
#define SCENARIO(n) static void scn_##n(); static mc::Reg reg_##n(#n,scn_##n); static void scn_##n()
#define CHECK(cond,...) do{ mc::C().checks++; if(!(cond)) mc::fail(#cond " | " __VA_ARGS__); }while(0)
