#pragma once
#include <xmmintrin.h>
#include <pmmintrin.h>
// control word emulation
#define _MCW_DN 0x03000000
#define _DN_SAVE 0x00000000
#define _DN_FLUSH 0x01000000
#define _MCW_RC 0x00000300
#define _RC_NEAR 0
#define _RC_CHOP 0x300
#define _CW_DEFAULT 0x9001F
static inline int _controlfp_s(unsigned*cur,unsigned nv,unsigned mask){
 unsigned c=_mm_getcsr(); 
 if(mask&_MCW_DN){ c&=~0x8040u; if((nv&_MCW_DN)==_DN_FLUSH) c|=0x8040u; }
 if(mask&_MCW_RC){ c&=~0x6000u; if((nv&_MCW_RC)==_RC_CHOP) c|=0x6000u; }
 if(mask) _mm_setcsr(c);
 if(cur) *cur=((c&0x8000)?_DN_FLUSH:0)|((c&0x6000)==0x6000?_RC_CHOP:0);
 return 0;
}
#include <cstdio>
#define printf_s printf
#include <cerrno>
#include <cstdarg>
#include <cstring>
inline int fopen_s(FILE**f,const char*n,const char*m){ char mm[8];int j=0; for(int i=0;m[i]&&j<7;i++) if(m[i]!='S'&&m[i]!='R') mm[j++]=m[i]; mm[j]=0; *f=fopen(n,mm); return *f?0:(errno?errno:1);}
inline size_t fread_s(void*b,size_t bs,size_t es,size_t c,FILE*f){ if(es*c>bs) __builtin_trap(); return fread(b,es,c,f);}
#ifndef MAX_PATH
#define MAX_PATH 260
#endif
inline int sprintf_s(char*b,size_t n,const char*fmt,...){va_list a;va_start(a,fmt);int r=vsnprintf(b,n,fmt,a);va_end(a);return r;}
template<size_t N> inline int sprintf_s(char(&b)[N],const char*fmt,...){va_list a;va_start(a,fmt);int r=vsnprintf(b,N,fmt,a);va_end(a);return r;}
inline int strcpy_s(char*d,size_t n,const char*s){ if(strlen(s)>=n){d[0]=0;return 34;} strcpy(d,s);return 0;}
template<size_t N> inline int strcpy_s(char(&d)[N],const char*s){ return strcpy_s(d,N,s);}
