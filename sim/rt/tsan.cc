// Our own implementation of the instrumentation callbacks gcc emits for -fsanitize=thread:
// every memory access of the code under test is a potential preemption point and is checked
// against the heap shadow.
#include "rt.h"
#include <stdio.h>
static __attribute__((noinline)) void slow(const void *pc){ if(g_sim&&cur&&!cur->atomic&&cur->instr) sched_point(pc); else g_budget=1000; }
static __attribute__((noinline)) void bad(const void *a,u64 n,bool wr,const void *pc){
  if(!g_sim||!cur) return; 
  u8 s=*(u8*)(SHADOW+((u64)a-ARENA)/16); std::string where; heap_report(a,where);
  violation(s==2?"use-after-free":"heap-overflow","%s of %llu bytes: %s; at %s",wr?"write":"read",(unsigned long long)n,where.c_str(),backtrace_str().c_str()); }
static inline __attribute__((always_inline)) void chk(const void *a,u64 n,bool wr,const void *pc){
  if((u64)a-ARENA<ARENA_SZ){ u8 *s=(u8*)(SHADOW+((u64)a-ARENA)/16);
    if(__builtin_expect(*s!=1,0)) bad(a,n,wr,pc); }
  if(__builtin_expect(--g_budget<0,0)) slow(pc); }
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(){}
void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(N) void __tsan_read##N(void*a){ chk(a,N,false,PC);} void __tsan_write##N(void*a){ chk(a,N,true,PC);} \
 void __tsan_unaligned_read##N(void*a){ chk(a,N,false,PC);} void __tsan_unaligned_write##N(void*a){ chk(a,N,true,PC);} \
 void __tsan_volatile_read##N(void*a){ chk(a,N,false,PC);} void __tsan_volatile_write##N(void*a){ chk(a,N,true,PC);} \
 void __tsan_unaligned_volatile_read##N(void*a){ chk(a,N,false,PC);} void __tsan_unaligned_volatile_write##N(void*a){ chk(a,N,true,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*a,unsigned long n){ if(n) chk(a,n,false,PC);} void __tsan_write_range(void*a,unsigned long n){ if(n) chk(a,n,true,PC);}
void __tsan_vptr_update(void **p,void*){ chk(p,8,true,PC);} void __tsan_vptr_read(void**p){ chk(p,8,false,PC);}
#define AT(B,T) \
 T __tsan_atomic##B##_load(const volatile T*a,int){ chk((void*)a,B/8,false,PC); return *a;} \
 void __tsan_atomic##B##_store(volatile T*a,T v,int){ chk((void*)a,B/8,true,PC); *a=v;} \
 T __tsan_atomic##B##_exchange(volatile T*a,T v,int){ chk((void*)a,B/8,true,PC); T o=*a; *a=v; return o;} \
 T __tsan_atomic##B##_fetch_add(volatile T*a,T v,int){ chk((void*)a,B/8,true,PC); T o=*a; *a=o+v; return o;} \
 T __tsan_atomic##B##_fetch_sub(volatile T*a,T v,int){ chk((void*)a,B/8,true,PC); T o=*a; *a=o-v; return o;} \
 T __tsan_atomic##B##_fetch_and(volatile T*a,T v,int){ chk((void*)a,B/8,true,PC); T o=*a; *a=o&v; return o;} \
 T __tsan_atomic##B##_fetch_or(volatile T*a,T v,int){ chk((void*)a,B/8,true,PC); T o=*a; *a=o|v; return o;} \
 T __tsan_atomic##B##_fetch_xor(volatile T*a,T v,int){ chk((void*)a,B/8,true,PC); T o=*a; *a=o^v; return o;} \
 T __tsan_atomic##B##_fetch_nand(volatile T*a,T v,int){ chk((void*)a,B/8,true,PC); T o=*a; *a=~(o&v); return o;} \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T*a,T*e,T v,int,int){ chk((void*)a,B/8,true,PC); if(*a==*e){*a=v;return 1;} *e=*a; return 0;} \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T*a,T*e,T v,int,int){ chk((void*)a,B/8,true,PC); if(*a==*e){*a=v;return 1;} *e=*a; return 0;} \
 T __tsan_atomic##B##_compare_exchange_val(volatile T*a,T e,T v,int,int){ chk((void*)a,B/8,true,PC); T o=*a; if(o==e) *a=v; return o;}
AT(8,u8) AT(16,uint16_t) AT(32,u32) AT(64,u64)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
