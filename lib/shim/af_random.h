#pragma once
#include <cstdint>
#include <type_traits>
namespace AFog {
 static const int GEN_ERROR=(int)0x80000000;
 struct rngbase { uint64_t s;
  rngbase(int seed){RandomInit(seed);} void RandomInit(int seed){ s=(uint64_t)(uint32_t)seed*0x9E3779B97F4A7C15ull+0x1234567;}
  void RandomInitByArray(const int* a,int n){ s=0x777; for(int i=0;i<n;i++) s=(s^(uint32_t)a[i])*0x9E3779B97F4A7C15ull+i; }
  uint32_t BRandom(){ s+=0x9E3779B97F4A7C15ull; uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return (uint32_t)((z^(z>>31))>>32); }
  double Random(){ return BRandom()*(1./4294967296.); }
  float FRandom(){ return (BRandom()>>8)*(1.f/16777216.f); }
  int IRandomX(int a,int b){ if(b<a) return GEN_ERROR; return a+(int)(((uint64_t)BRandom()*(uint64_t)(uint32_t)(b-a+1))>>32); }
  int IRandom(int a,int b){return IRandomX(a,b);}
  template<class T> std::enable_if_t<std::is_same<T,float>::value,float> FPRandom(){return FRandom();}
  template<class T> std::enable_if_t<!std::is_same<T,float>::value,double> FPRandom(){return Random();}
 };
 struct CRandomMersenne:rngbase{using rngbase::rngbase;}; struct CRandomSFMT0:rngbase{using rngbase::rngbase;}; struct CRandomSFMT1:rngbase{using rngbase::rngbase;};
 template<class T> struct has_FRandom: std::true_type{};
}
