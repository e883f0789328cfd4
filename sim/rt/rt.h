// Internals of the simulator runtime.
#ifndef VERIF_RT_H
#define VERIF_RT_H
#include "sim.h"
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <queue>
#include <signal.h>
#include <pthread.h>
#include <sys/types.h>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum WaitKind { W_NONE=0,W_MUTEX,W_COND,W_JOIN,W_SLEEP,W_IO,W_PRED,W_STALL,W_GUARD,W_ONCE,W_LOCKF,W_SIGWAIT };
extern const char *wait_names[];
enum FState { F_RUN=0,F_BLOCK,F_DEAD };

struct Fiber {
  int id=0; int node=0; void *sp=nullptr; char *stk_lo=nullptr,*stk_hi=nullptr;
  FState st=F_RUN; WaitKind wk=W_NONE; const void *wobj=nullptr; u64 deadline=0; // 0: none
  const void *cw=nullptr; bool cwoken=false; bool timed_out=false, woken=false, interrupted=false;
  std::function<bool()> *ready=nullptr;     // W_IO / W_PRED
  int (*pred)(void*)=nullptr; void *pred_arg=nullptr;
  void *(*start)(void*)=nullptr; void *arg=nullptr; void *ret=nullptr; bool detached=false, joined=false;
  bool cancel_pending=false, cancel_enabled=true, exiting=false, canceled=false;
  u64 sigpend=0, sigmask=0; int in_handler=0;
  int saved_errno=0; void *eh0=nullptr; unsigned eh1=0;
  std::map<unsigned,void*> keys;
  std::string name; u64 prio=0; u64 run_since=0; int atomic=0; bool instr=true;
  void *last_pc=nullptr; bool harness=false; const void *unwind_buf=nullptr;
};

struct NodeP {           // a simulated process
  int idx=0; std::string host; int pid=0; int role=0; bool alive=true, exited=false; int exit_code=0;
  void *dl=nullptr; void *shared=nullptr; std::map<int,struct sigaction> sigact; std::string cwd;
  i64 crash_after_bytes=-1; u64 sigpend=0;
  struct FdTab *fds=nullptr;
};

extern Fiber *cur; extern bool g_sim; extern i64 g_budget; extern u64 g_now;
extern std::vector<Fiber*> fibers; extern std::vector<NodeP*> nodes;
inline NodeP *curnode(){ return nodes[cur->node]; }

// decisions
struct TraceEnt { u64 idx,val; };
bool dec_replaying();
u64 dec_record(u64 n,u64 v);               // record+hash
bool dec_lookup(u64 &v);                   // in replay: value for the next decision index
double rng_u(); u64 rng_next();
inline u64 decide(u64 n,u64 draw_val_if_live){ return dec_record(n,draw_val_if_live); }
template<class F> u64 decision(u64 n,F draw){ u64 v; if(dec_lookup(v)){ if(n&&v>=n) v%=n; } else v=draw(); return dec_record(n,v); }
bool flip(double p,const char *kind);      // fault flip; counts kind if it fires
u64 choose(u64 n);
void fault_fired(const char *kind);
void mix(u64 v);
void rlog(const char *fmt,...) __attribute__((format(printf,1,2)));
extern bool g_calm;

// scheduling
void sched_point(const void *pc);          // may switch
void block(WaitKind wk,const void *obj,u64 deadline);  // returns when runnable again; check timed_out
bool wait_io(std::function<bool()> ready,u64 deadline,bool interruptible); // true: ready; false: timeout or interrupted (cur->interrupted)
void wake(Fiber *f);
void io_poke();
void add_event(u64 at,std::function<void()> fn);
void cancel_point();
void run_signals(); void take_node_pending();
void node_die(int node,int code,bool by_crash);
[[noreturn]] void violation(const char *cls,const char *fmt,...) __attribute__((format(printf,2,3)));
[[noreturn]] void finish(int verdict,const char *cls,const char *msg);
std::string backtrace_str(void *rip=nullptr);
void node_close_all(NodeP*);
Fiber *new_fiber(int node,void *(*start)(void*),void *arg,const char *name);
struct SwitchGuard{ int e; SwitchGuard(); ~SwitchGuard(); };

// heap
void heap_init(); void heap_child();
extern "C" u8 *sim_shadow;                 // shadow of the arena
static const u64 ARENA=0x100000000000ULL, ARENA_SZ=(16ULL<<30), SHADOW=0x110000000000ULL, STACKS=0x120000000000ULL, STKSZ=(1<<20);
extern u64 g_heap_live; extern int g_fill; extern bool g_heap_failing;
void heap_report(const void *p,std::string &out);

template<class T> T real_sym(const char *name);
#include <dlfcn.h>
#define REAL(name) ({ static decltype(&name) p_=nullptr; if(!p_) p_=(decltype(&name))dlsym(RTLD_NEXT,#name); p_; })

// result shared with the runner
struct Shared {
  int verdict;         // 0 none,1 pass,2 violation,3 discard,4 step-limit
  char cls[64]; char msg[16384]; char log[1<<18]; u32 loglen;
  u64 hash,ndec,nswitch,events,simtime,npreempt; u64 ntrace;
  u32 nfault; struct { char name[32]; u64 n; } fault[64];
  u32 nprobe; struct { char name[48]; u64 n; } probe[96];
  u32 nknown; struct { char id[48]; char msg[256]; } known[16];
  u64 nstates; u64 states[4096];
  u8 switchpairs[1<<16];       // accumulates over runs
  u64 maxheap;
  TraceEnt trace[1<<20];
};
extern Shared *shm;
#endif
