// Shared helpers of the harnesses.
#ifndef VERIF_H_COMMON_H
#define VERIF_H_COMMON_H
#include "sim.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <functional>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;
static inline u64 pick(u64 n,const char *t="pick"){ return sim_choose(n,t); }
static inline bool coin(double p,const char *t="coin"){ return sim_flip(p,t); }
static const u64 MS=1000000ull, SEC=1000000000ull;
struct NoPreempt { NoPreempt(){ sim_atomic_begin(); } ~NoPreempt(){ sim_atomic_end(); } };
// waits (virtual time) until the predicate holds
static inline bool waitFor(const std::function<bool()> &f,u64 timeout){ return sim_wait([](void*p)->int{ return (*(const std::function<bool()>*)p)(); },(void*)&f,timeout); }
static inline int spawn(const char *name,std::function<void()> f){ auto *p=new std::function<void()>(std::move(f)); return sim_spawn([](void*a){ auto *p=(std::function<void()>*)a; (*p)(); delete p; },p,name); }
static inline u64 mixh(u64 a,u64 b){ a^=b+0x9e3779b97f4a7c15ull+(a<<6)+(a>>2); a*=0xff51afd7ed558ccdull; return a^(a>>33); }
// swarm: which fault kinds are on in this run
static inline void threadFaults(){
  if(sim_param("nofault",0)) return;
  if(coin(0.4,"f_spur")) sim_faults.cond_spurious=0.02+0.1*pick(4);
  if(coin(0.3,"f_stall")){ sim_faults.stall=0.0005*(1+pick(20)); sim_faults.stall_ns=(1+pick(50))*MS/(1+pick(20)); }
}
static inline void netFaults(){
  if(sim_param("nofault",0)) return;
  if(coin(0.5,"f_short")) sim_faults.net_short=0.02+0.2*pick(4);
  if(coin(0.5,"f_lat")){ sim_faults.net_lat_min=1000*(1+pick(100)); sim_faults.net_lat_max=sim_faults.net_lat_min+MS*pick(60); }
  if(coin(0.5,"f_buf")){ const u64 b[]={65536,4096,512,64,16}; sim_faults.net_sndbuf=b[pick(5)]; // keep the bandwidth above about 30 kB/s: the gateways give a block 30 s
    u64 lim=sim_faults.net_sndbuf*30000; if(sim_faults.net_lat_max>lim){ sim_faults.net_lat_max=lim; if(sim_faults.net_lat_min>lim) sim_faults.net_lat_min=lim; } }
}
#endif
