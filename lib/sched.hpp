// API of the controlled scheduler (sched_native.cpp) for concurrency harnesses
#pragma once
#include <cstdint>
extern "C" {
void sched_register(const char* name, void(*fn)());
int  sched_choose(int n);                 // free (data) choice
[[noreturn]] void sched_fail(const char* fmt, ...);
void sched_set_hw(unsigned n);            // what std::thread::hardware_concurrency() answers
void sched_op();                          // count one harness-level operation
void sched_outcome(uint64_t h);
void sched_check();                       // count one oracle evaluation
int  sched_thorough();
void sched_sample(const char* fmt,...);
int  sched_self();                        // id of the running model thread (0 = main)
void sched_bounds(int preemptions,int spurious); // per scenario bound, call first
void sched_point();                       // explicit scheduling point
void sched_norace(const void* p, unsigned n); // harness bookkeeping memory: not race-checked
}
#define CSCENARIO(n) static void cscn_##n(); static int creg_##n=(sched_register(#n,cscn_##n),0); static void cscn_##n()
#define CCHECK(cond,...) do{ sched_check(); if(!(cond)) sched_fail(#cond " | " __VA_ARGS__); }while(0)
