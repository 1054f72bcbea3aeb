// Allocation functions that count and can fail on order. Include before everything of nntl.
#pragma once
#include <cstdlib>
#include <new>
#include <mm_malloc.h>
namespace oom{ static long n=0,live=0,mats=0,at=-1,fired=0; static bool rest=false,armed=false;
	static bool hit()noexcept{ if(!armed) return false; n++; if(at>0&&(n==at||(rest&&n>at))){ fired++; return true; } return false; }
	static void* mal(size_t s,size_t a)noexcept{ if(hit()) return nullptr; live++; mats++; return _mm_malloc(s,a); } static void fre(void*p)noexcept{ if(p) live--,mats--; _mm_free(p); }
	static void* get(size_t s)noexcept{ live++; void*p=malloc(s?s:1); if(!p) abort(); return p; } static void put(void*p)noexcept{ if(p) live--; free(p); } 
	static void* raw(size_t s)noexcept{ return hit()?nullptr:malloc(s); }
	static bool vec=false; static void* thr(size_t s){ return get(s); } }
void* operator new(size_t s){ return oom::thr(s); } void* operator new[](size_t s){ return oom::thr(s); } void* operator new(size_t s,const std::nothrow_t&)noexcept{ return oom::hit()?nullptr:oom::get(s); } void* operator new[](size_t s,const std::nothrow_t&)noexcept{ return oom::hit()?nullptr:oom::get(s); }
void operator delete(void*p)noexcept{ oom::put(p); } void operator delete[](void*p)noexcept{ oom::put(p); } void operator delete(void*p,size_t)noexcept{ oom::put(p); } void operator delete[](void*p,size_t)noexcept{ oom::put(p); } void operator delete(void*p,const std::nothrow_t&)noexcept{ oom::put(p); } void operator delete[](void*p,const std::nothrow_t&)noexcept{ oom::put(p); }
// vectors of numbers may fail as well
#include <memory>
namespace std{ template<> inline double* __new_allocator<double>::allocate(size_t n,const void*){ if(oom::vec&&oom::hit()) throw std::bad_alloc(); return (double*)::operator new(n*8); } }
#undef _aligned_malloc
#undef _aligned_free
#define _aligned_malloc(s,a) oom::mal(s,a)
#define _aligned_free(p) oom::fre(p)
#include <ostream>
#include <sstream>
#include <map>
static std::ostream g_nul(nullptr);
#define STDCOUT(args) (g_nul << args)
#define STDCOUTL(args) (g_nul << args << std::endl)
struct Arm{ Arm(long at,bool rest,bool vec=false){ oom::n=0; oom::fired=0; oom::at=at; oom::rest=rest; oom::vec=vec; oom::armed=true; } ~Arm(){ oom::armed=false; oom::vec=false; } };
