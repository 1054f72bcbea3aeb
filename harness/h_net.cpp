#include "archs.hpp"

// one training step and the following inference, for every architecture, thread count, piece order, batch size, weights, gates and dropout mask
SCENARIO(step){ int ai=mc::choose((int)archs().size()); int wp=mc::choose(3), W=1+mc::choose(4), ord=mc::choose(2), bs=1+mc::choose(3), dp=mc::choose(2); mc::shard(); if(W<3&&ord) throw mc::Skip(); g_W=W; g_order=ord; rngPat(0); NP n=archs()[ai].mk(); Run r(*n); r.gates=n->positiveX?mc::choose(1<<(2*bs)):0; char b[200]; snprintf(b,sizeof b,"arch=%s weights=%d threads=%d order=%d bs=%d data=%d gates=%d",archs()[ai].n,wp,W,ord,bs,dp,r.gates); r.hist=b; r.maxF=r.maxB=3;
	CHECK(n->init(3,3),"init | %s",b); r.readW(); r.setPat(wp); g_mask.clear(); bool msk=std::string(archs()[ai].n).find("dropout")!=std::string::npos; if(msk){ int m=mc::choose(1<<(2*bs)); for(int q=0;q<2*bs;q++) g_mask.push_back((m>>q)&1); char t[40]; snprintf(t,sizeof t," mask=%x",m); r.hist+=t; } rngPat(msk?-1:0); g_dr=0; r.train(bs,dp,true); rngPat(1); r.infer(bs,1-dp,false); mc::state(mc::hbytes(r.hist.data(),r.hist.size())); uint64_t h=0; for(auto&m:r.w) for(auto v:m.a){ double d=(double)v; h=mc::hmix(h,mc::hbytes(&d,8)); } mc::outcome(h); mc::sample("%s",r.hist.c_str()); }
// every history of training steps, inference on smaller and larger batches, re-initialisation and weight replacement
static void hist(int lo,int hi,int D){ int ai=lo+mc::choose(hi-lo); static const char*ON[]={"train1","train2","infer1","infer2","infer3","fixed2","deinit","reinit","setW"}; NP n; std::vector<int> ops; int W=2+(ai%3); g_W=W; g_order=ai&1; rngPat(0); n=archs()[ai].mk(); Run r(*n); r.gates=n->positiveX?0x2d:0; r.hist=std::string("arch=")+archs()[ai].n+":"; static std::unordered_set<uint64_t> seen; 
	CHECK(n->init(2,2),"init | %s",r.hist.c_str()); r.readW(); r.setPat(0); uint64_t key=ai; for(int s=0;s<D;s++){ int o=mc::choose(9); if(s==1) mc::shard(); r.hist+=" "; r.hist+=ON[o]; key=mc::hmix(key,o+1); bool fresh=seen.insert(key).second||mc::C().replaying; rngPat(s%3);
		switch(o){ case 0: case 1: r.train(o+1,s%2,fresh); break; case 2: case 3: case 4: r.infer(o-1,s%2,false); break; case 5: if(!n->initd(2,0)) throw mc::Skip(); r.infer(2,s%2,true); break; case 6: n->deinit(); CHECK(!n->initd(1,0),"still initialised after deinit | %s",r.hist.c_str()); break; case 7: n->reinit(); break; case 8: r.setPat(1+s%2); break; }
		mc::state(key); }
	uint64_t h=0; for(auto&m:r.w) for(auto v:m.a){ double d=(double)v; h=mc::hmix(h,mc::hbytes(&d,8)); } mc::outcome(h); mc::sample("%s",r.hist.c_str()); }
SCENARIO(histories){ hist(0,(int)archs().size(),mc::thorough()?5:4); }
