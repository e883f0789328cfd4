// Scheduler, virtual time, threads, synchronisation, signals, processes.
#include "rt.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <time.h>
#include <unwind.h>
#include <execinfo.h>
#include <cxxabi.h>
#include <typeinfo>
#include <algorithm>
#include <math.h>

Fiber *cur=nullptr; bool g_sim=false; i64 g_budget=1000; u64 g_now=1000000000ull;
std::vector<Fiber*> fibers; static std::vector<Fiber*> live; static int ndead=0; /* live: fibers that have not ended (and up to 32 that have), by id */ std::vector<NodeP*> nodes; Shared *shm=nullptr;
SimFaults sim_faults={}; bool g_calm=false; bool g_pct_allowed=true;
const char *wait_names[]={"none","mutex","cond","join","sleep","io","pred","stall","guard","once","lockf","sigwait"};
extern "C" { void sim_swap(void**,void*); void sim_fiber_entry(); void sim_fiber_main(Fiber*); }

//---------------------------------------------------------------- PRNG, decisions
static u64 s[4];
static inline u64 rotl(u64 x,int k){ return (x<<k)|(x>>(64-k)); }
u64 rng_next(){ u64 r=rotl(s[1]*5,7)*9,t=s[1]<<17; s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rotl(s[3],45); return r; }
double rng_u(){ return (rng_next()>>11)*(1.0/9007199254740992.0); }
void rng_seed(u64 z){ for(int i=0;i<4;i++){ z+=0x9e3779b97f4a7c15ull; u64 x=z; x=(x^(x>>30))*0xbf58476d1ce4e5b9ull; x=(x^(x>>27))*0x94d049bb133111ebull; s[i]=x^(x>>31); } }
bool g_replay=false; static std::vector<TraceEnt> rtrace; static size_t rpos=0; static u64 ndec=0; static u64 hash=1469598103934665603ull; static u64 g_seed;
void mix(u64 v){ hash=(hash^v)*1099511628211ull; hash^=hash>>29; }
static void dump_fibers_fwd(std::string&); bool dec_replaying(){ return g_replay; }
bool dec_lookup(u64 &v){ if(!g_replay) return false; while(rpos<rtrace.size()&&rtrace[rpos].idx<ndec) rpos++;
  v=(rpos<rtrace.size()&&rtrace[rpos].idx==ndec)?rtrace[rpos].val:0; return true; }
u64 dec_record(u64 n,u64 v){ if(v){ if(shm->ntrace<(sizeof shm->trace/sizeof shm->trace[0])) shm->trace[shm->ntrace++]={ndec,v}; else { g_sim=false; std::string m="too many decisions\n"; dump_fibers_fwd(m); rlog("%s",m.substr(0,1900).c_str()); finish(4,"trace-overflow",m.c_str()); } }
  mix(ndec*31+n); mix(v); ndec++; return v; }
void set_replay(const TraceEnt *t,size_t n){ g_replay=true; rtrace.assign(t,t+n); rpos=0; }
u64 choose(u64 n){ if(n<=1) return 0; return decision(n,[&]{ return rng_next()%n; }); }
void rlog(const char *fmt,...);
void fault_fired(const char *kind){ if(g_sim&&!strncmp(kind,"disk_",5)) rlog("fault: %s",kind); for(u32 i=0;i<shm->nfault;i++) if(!strcmp(shm->fault[i].name,kind)){ shm->fault[i].n++; return; }
  if(shm->nfault<64){ snprintf(shm->fault[shm->nfault].name,32,"%s",kind); shm->fault[shm->nfault++].n=1; } }
bool flip(double p,const char *kind){ if(p<=0||g_calm) return false; bool r=decision(2,[&]{ return (u64)(rng_u()<p); }); if(r){ fault_fired(kind); mix(0xfa);} return r; }
//---------------------------------------------------------------- logging, verdicts
void rlogv(const char *fmt,va_list ap){ char b[2048]; int n=snprintf(b,sizeof b,"[%llu.%06llu n%d f%d] ",(unsigned long long)(g_now/1000000000),(unsigned long long)(g_now/1000%1000000),cur?cur->node:-1,cur?cur->id:-1);
  n+=vsnprintf(b+n,sizeof b-n-2,fmt,ap); if(n>(int)sizeof b-2) n=sizeof b-2; b[n++]='\n'; 
  for(int i=0;i<n;i++) mix((u8)b[i]);
  if(shm->loglen+n>sizeof shm->log){ u32 h=sizeof shm->log/2; memmove(shm->log,shm->log+shm->loglen-h,h); shm->loglen=h; }
  memcpy(shm->log+shm->loglen,b,n); shm->loglen+=n; }
void rlog(const char *fmt,...){ va_list ap; va_start(ap,fmt); rlogv(fmt,ap); va_end(ap); }
static u64 nswitch=0,npre=0,nevents=0,g_seqno=0; static i64 cur_slice=1000;
[[noreturn]] void finish(int verdict,const char *cls,const char *msg){
  g_sim=false; shm->verdict=verdict; snprintf(shm->cls,sizeof shm->cls,"%s",cls); snprintf(shm->msg,sizeof shm->msg,"%s",msg);
  shm->hash=hash; shm->ndec=ndec; shm->nswitch=nswitch; shm->npreempt=npre; shm->events=nevents; shm->simtime=g_now-1000000000ull; shm->maxheap=g_heap_live;
  syscall(SYS_exit_group,verdict==1?0:10+verdict); __builtin_unreachable(); }
// approximate stack of a suspended fiber: words on its stack that look like return addresses into a process image
static void scan_stack(Fiber *f,std::string &o){ u64 *p=(u64*)f->sp; int shown=0; const char *last=0; 
  for(int k=0;k<1500&&(char*)(p+k)<f->stk_hi&&shown<9;k++){ u8 *a=(u8*)p[k]; if((u64)a<0x10000||((u64)a>=ARENA&&(u64)a<STACKS+(1ull<<40))) continue; Dl_info d; if(!dladdr(a,&d)||!d.dli_sname||!d.dli_fname||!strstr(d.dli_fname,".so")||strstr(d.dli_fname,"libstdc++")||strstr(d.dli_fname,"libc.")) continue; 
    if(a[-5]!=0xe8&&a[-2]!=0xff&&a[-3]!=0xff&&a[-6]!=0xff) continue; if(d.dli_sname==last) continue; last=d.dli_sname; int st; char *dm=abi::__cxa_demangle(d.dli_sname,0,0,&st); std::string nm=dm?dm:d.dli_sname; free(dm); if(nm.find("std::")==0||nm.find("void std::")==0) continue; size_t q=nm.find('('); if(q!=std::string::npos&&q>3) nm.resize(q); if(nm.size()>60) nm.resize(60); o+=(shown++?" < ":"      in ")+nm; }
  if(shown) o+="\n"; }
static void dump_fibers(std::string &o){ char b[512]; for(auto f:live){ if(f->st==F_DEAD) continue;
    snprintf(b,sizeof b,"  fiber %d '%s' node %d: %s wait=%s%s%s\n",f->id,f->name.c_str(),f->node,f->st==F_RUN?"runnable":"blocked",wait_names[f->wk],f->deadline?" (timed)":"",f==cur?" <current>":""); o+=b; if(f!=cur&&f->st==F_BLOCK) scan_stack(f,o); if(o.size()>11000) { o+="...\n"; break; } } }
std::string g_dump; static void dump_fibers_fwd(std::string &o){ o+=backtrace_str()+"\n"; dump_fibers(o); }
[[noreturn]] void violation(const char *cls,const char *fmt,...){ static bool in=false; if(in) syscall(SYS_exit_group,99); in=true; g_sim=false;
  char b[12000]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b,fmt,ap); va_end(ap); std::string m(b,std::min(n,(int)sizeof b-1)); m+="\n"; dump_fibers(m); m+=g_dump; finish(2,cls,m.c_str()); }
std::string backtrace_str(void *rip){ void *a[40]; bool g=g_sim; g_sim=false; int n=backtrace(a,40); std::string o; int shown=0; 
  auto one=[&](void*p){ Dl_info d; if(dladdr(p,&d)&&d.dli_sname){ int st; char *dm=abi::__cxa_demangle(d.dli_sname,0,0,&st); std::string nm=dm?dm:d.dli_sname; free(dm);
      if(nm.find("__tsan")==0||nm.find("violation")==0||nm.find("backtrace_str")==0) return; if(nm.size()>120) nm.resize(120); o+=nm+" < "; shown++; } };
  if(rip) one(rip); for(int i=0;i<n&&shown<14;i++) one(a[i]); g_sim=g; return o; }

//---------------------------------------------------------------- scheduler
enum Mode { M_RANDOM, M_PCT, M_STICKY };
static int mode=M_RANDOM; static double p_switch=0.2; static double slice_mean=0; static int pct_left=0; static double pct_p=0;
static u64 consec=0; static const i64 FAIR=400000;
struct Ev { u64 at,seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev*a,const Ev*b)const{ return a->at!=b->at? a->at>b->at : a->seq>b->seq; } };
static std::priority_queue<Ev*,std::vector<Ev*>,EvCmp> evq; static u64 evseq=0;
void add_event(u64 at,std::function<void()> fn){ evq.push(new Ev{at<g_now?g_now:at,evseq++,std::move(fn)}); }
void sched_init_policy(){ // drawn per run (swarm)
  double r=rng_u(); if(g_replay) r=0; 
  if(r<0.40){ mode=M_RANDOM; const double ps[]={0.02,0.1,0.3,0.6,1.0}; p_switch=ps[rng_next()%5]; const double sm[]={0,0,20000,3000,500,60}; slice_mean=sm[rng_next()%6]; }
  else if(r<0.85&&g_pct_allowed){ mode=M_PCT; const double sm[]={0,20000,4000,800,150}; slice_mean=sm[rng_next()%5]; pct_p=(double[]){0.001,0.005,0.02,0.08}[rng_next()%4]; pct_left=1000000; }
  else { mode=M_STICKY; p_switch=0.02; const double sm[]={0,100000,5000}; slice_mean=sm[rng_next()%3]; } }
static void new_slice(){
  if(g_calm){ cur_slice=g_budget=FAIR; return; }
  u64 v=decision(0,[&]{ if(slice_mean<=0) return (u64)0; double u=rng_u(); double x=-slice_mean*log(1-u*0.9999); u64 k=(u64)x+1; return k>=(u64)FAIR?0:k; });
  cur_slice=g_budget=v?(i64)v:FAIR; }
static bool expired_slice=false;
static Fiber *pick(bool cur_runnable,bool rotate){
  // candidates in canonical order: current first (unless rotate), then round-robin after the current
  static std::vector<Fiber*> c; c.clear(); int me=cur?cur->id:0;
  if(ndead>32){ size_t j=0; for(auto f:live){ if(f->st!=F_DEAD||f==cur) live[j++]=f; else munmap(f->stk_lo,STKSZ); } live.resize(j); ndead=0; }
  size_t n=live.size(), at=std::lower_bound(live.begin(),live.end(),me,[](Fiber*f,int id){ return f->id<id; })-live.begin();
  if(cur_runnable&&!rotate) c.push_back(cur);
  for(size_t k=1;k<=n;k++){ Fiber *f=live[(at+k)%n]; if(f==cur) continue; if(f->st==F_RUN) c.push_back(f); }
  if(cur_runnable&&rotate) c.push_back(cur);
  if(c.empty()) return nullptr; if(c.size()==1) return c[0];
  u64 v=decision(c.size(),[&]()->u64{
    if(g_calm) return 0;
    switch(mode){
      case M_RANDOM: return (cur_runnable&&!rotate&&!expired_slice&&rng_u()>=p_switch)?0:rng_next()%c.size();
      case M_STICKY: return rng_u()<p_switch? rng_next()%c.size():0;
      default: { if(cur_runnable&&(expired_slice||rng_u()<pct_p)) cur->prio=rng_next()>>32; // lowered below everything else
                 if(rotate) return 0; size_t b=0; for(size_t i=1;i<c.size();i++) if(c[i]->prio>c[b]->prio) b=i; return b; } } });
  return c[v]; }
static const void *pc_of(Fiber*f){ return f->last_pc; }
static u32 lib_off(const void *p){ static std::map<const void*,u32> m; auto it=m.find(p); if(it!=m.end()) return it->second; Dl_info d; u32 o=0; if(p&&dladdr((void*)p,&d)) o=(u32)((char*)p-(char*)d.dli_fbase); m[p]=o; return o; }
static void do_switch(Fiber *to){
  if(to==cur) return; Fiber *from=cur; nswitch++;
  u32 k=lib_off(pc_of(from))*2654435761u ^ lib_off(pc_of(to))*40503u; u8 &c=shm->switchpairs[(k^(k>>16))&0xffff]; if(c<255) c++;
  from->saved_errno=errno; struct EG{void*c;unsigned u;} *g=(EG*)abi::__cxa_get_globals(); from->eh0=g->c; from->eh1=g->u;
  g->c=to->eh0; g->u=to->eh1; cur=to; consec=0;
  sim_swap(&from->sp,to->sp);
  errno=cur->saved_errno; }
static void charge(){ i64 used=cur_slice-g_budget; if(used<0) used=0; nevents+=used; g_now+=used*4+200; cur_slice=g_budget; }
static bool advance_time(){ // nothing runnable: jump to the next timer/event
  u64 t=~0ull; for(auto f:live) if(f->st==F_BLOCK&&f->deadline&&f->deadline<t) t=f->deadline;
  if(!evq.empty()&&evq.top()->at<t) t=evq.top()->at;
  if(t==~0ull) return false; if(t>g_now) g_now=t; return true; }
static void fire_due(){
  while(!evq.empty()&&evq.top()->at<=g_now){ Ev *e=evq.top(); evq.pop(); e->fn(); delete e; }
  for(auto f:live) if(f->st==F_BLOCK&&f->deadline&&f->deadline<=g_now){ f->timed_out=true; wake(f); } }
static bool eval_preds(){ bool any=false; for(auto f:live) if(f->st==F_BLOCK&&f->wk==W_PRED&&f->pred){ bool g=g_sim; g_sim=false; int r=f->pred(f->pred_arg); g_sim=g; if(r){ f->woken=true; wake(f); any=true; } } return any; }
static u64 step_limit=400000000ull, sw_limit=6000000; u64 g_last_progress=0;
static void check_limits(){ if(nevents>step_limit||nswitch>sw_limit||g_now>100000ull*1000000000ull) violation("livelock","step limit exceeded: %llu events, %llu switches, t=%.3fs; in %s",(unsigned long long)nevents,(unsigned long long)nswitch,g_now/1e9,backtrace_str().c_str()); }
static void reschedule(bool cur_runnable,bool rotate){
  check_limits();
  for(int guard=0;;guard++){
    if(!evq.empty()||1) fire_due();
    if(!cur_runnable&&cur->st==F_RUN) cur_runnable=true, rotate=false; // woken by an event
    Fiber *f=pick(cur_runnable&&cur->st==F_RUN,rotate);
    if(f){ if(((nswitch&255)==0)) { /* periodic predicate check */ if(eval_preds()) {} }
      mix(f->id+1); expired_slice=false; if(f!=cur) do_switch(f); return; }
    if(eval_preds()) continue;
    if(!advance_time()) violation("deadlock","no thread can run and no timer or event is pending"); } }
extern "C" void __sim_after_switch();
static void after_resume(){ new_slice(); }
void sched_point(const void *pc){
  if(!g_sim||!cur) return;
  charge(); if(cur->atomic) { g_budget=cur_slice=FAIR; return; }
  cur->last_pc=(void*)pc; bool exp=g_budget<0;
  if(exp) npre++; expired_slice=exp;
  if(!g_calm&&sim_faults.stall>0&&!cur->harness&&flip(sim_faults.stall,"thread_stall")){ block(W_STALL,0,g_now+sim_faults.stall_ns); expired_slice=false; run_signals(); return; }
  bool rotate=false; if(++consec>3000){ rotate=true; consec=0; }
  reschedule(true,rotate||(exp&&g_calm));
  new_slice();
  if(cur->sigpend) run_signals(); }
void wake(Fiber *f){ if(f->st==F_BLOCK){ f->st=F_RUN; f->deadline=0; } }
void block(WaitKind wk,const void *obj,u64 deadline){
  charge(); if(cur->atomic) violation("harness","blocking inside an atomic section (%s): %s",wait_names[wk],backtrace_str().c_str());
  cur->last_pc=__builtin_return_address(0);
  cur->wk=wk; cur->wobj=obj; cur->deadline=deadline; cur->timed_out=cur->woken=cur->interrupted=false; cur->st=F_BLOCK;
  reschedule(false,false);
  cur->wk=W_NONE; cur->wobj=0; cur->deadline=0; cur->ready=nullptr; new_slice(); }
bool wait_io(std::function<bool()> ready,u64 deadline,bool interruptible){
  for(;;){ if(ready()) return true; if(deadline&&g_now>=deadline){ cur->interrupted=false; return false; }
    if(cur->cancel_pending&&cur->cancel_enabled) cancel_point();
    if(cur->sigpend&~cur->sigmask){ run_signals(); if(interruptible){ cur->interrupted=true; return false; } continue; }
    cur->ready=&ready; block(W_IO,0,deadline); bool in=cur->interrupted;
    if(cur->cancel_pending&&cur->cancel_enabled) cancel_point();
    if(in||(cur->sigpend&~cur->sigmask)){ run_signals(); if(interruptible){ cur->interrupted=true; return false; } } } }
void io_poke(){ for(auto f:live) if(f->st==F_BLOCK&&f->wk==W_IO&&f->ready&&(*f->ready)()) wake(f); }
SwitchGuard::SwitchGuard(){ e=errno; } SwitchGuard::~SwitchGuard(){ errno=e; }

//---------------------------------------------------------------- fibers
static u64 stk_next=STACKS;
static void on_fiber_exit(void *ret);
Fiber *new_fiber(int node,void *(*start)(void*),void *arg,const char *name){
  Fiber *f=new Fiber; f->id=fibers.size(); f->node=node; f->start=start; f->arg=arg; f->name=name; 
  void *m=mmap((void*)stk_next,STKSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); if(m==MAP_FAILED) abort();
  mprotect(m,8192,PROT_NONE); stk_next+=STKSZ; f->stk_lo=(char*)m; f->stk_hi=(char*)m+STKSZ;
  u64 *sp=(u64*)f->stk_hi; *--sp=0; *--sp=0; // alignment
  *--sp=(u64)&sim_fiber_entry; *--sp=0/*rbp*/; *--sp=0/*rbx*/; *--sp=(u64)f/*r12*/; *--sp=0; *--sp=0; *--sp=0/*r15*/;
  u32 mx; __asm__ volatile("stmxcsr %0":"=m"(mx)); uint16_t cw; __asm__ volatile("fnstcw %0":"=m"(cw)); --sp; ((u32*)sp)[0]=mx; ((u32*)sp)[1]=cw; f->sp=sp;
  f->prio=g_replay?0:rng_next(); f->prio|=1ull<<32; fibers.push_back(f); live.push_back(f); return f; }
static void run_key_dtors();
struct CancelExc { _Unwind_Exception ue; };
static _Unwind_Reason_Code stop_fn(int,_Unwind_Action act,_Unwind_Exception_Class,_Unwind_Exception*,_Unwind_Context *ctx,void *){
  if(act&_UA_END_OF_STACK||(char*)_Unwind_GetCFA(ctx)>=cur->stk_hi-128) on_fiber_exit(cur->ret); return _URC_NO_REASON; }
static void cancel_cleanup(_Unwind_Reason_Code,_Unwind_Exception*){ violation("cancel-swallowed","FATAL: a thread being cancelled caught the unwind and did not rethrow (the real program aborts)"); }
static void unwind_exit(void *ret){ cur->exiting=true; cur->ret=ret; cur->cancel_enabled=false; _Unwind_Exception *e=new _Unwind_Exception; memset(e,0,sizeof *e); e->exception_cleanup=cancel_cleanup; _Unwind_ForcedUnwind(e,stop_fn,nullptr); violation("cancel","forced unwind failed"); }
void cancel_point(){ if(!g_sim||!cur) return; if(cur->cancel_pending&&cur->cancel_enabled&&!cur->exiting){ rlog("thread %d '%s' cancelled",cur->id,cur->name.c_str()); cur->canceled=true; unwind_exit(PTHREAD_CANCELED); } }
static void on_fiber_exit(void *ret){ run_key_dtors(); cur->ret=ret; cur->st=F_DEAD; ndead++; mix(0xdead00+cur->id);
  for(auto f:live) if(f->st==F_BLOCK&&f->wk==W_JOIN&&f->wobj==cur) wake(f);
  charge(); reschedule(false,false); abort(); }
extern "C" void sim_fiber_main(Fiber *f){
  new_slice(); void *r=nullptr;
  try { r=f->start(f->arg); }
  catch(std::exception &e){ std::string w=e.what(); violation("uncaught-exception","exception escaped from thread '%s': %s: %s",f->name.c_str(),typeid(e).name(),w.c_str()); }
  on_fiber_exit(r); }
static void kill_fibers(int node){ for(auto f:live) if(f->node==node&&f->st!=F_DEAD&&f!=cur){ f->st=F_DEAD; ndead++; f->wk=W_NONE; } }
void node_die(int n,int code,bool by_crash){ NodeP *p=nodes[n]; if(!p->alive) return; p->alive=false; p->exited=!by_crash; p->exit_code=code; rlog("process n%d %s code %d",n,by_crash?"killed":"exited",code);
  kill_fibers(n); node_close_all(p); if(cur->node==n){ cur->st=F_DEAD; charge(); reschedule(false,false); abort(); } }

//---------------------------------------------------------------- signals
static bool sig_run_one(Fiber *f){ u64 p=f->sigpend&~f->sigmask; if(!p) return false; int sig=__builtin_ctzll(p); f->sigpend&=~(1ull<<sig);
  if(getenv("SIGDBG")) rlog("sig %d runs in f%d",sig,f->id);
  NodeP *nd=nodes[f->node]; auto it=nd->sigact.find(sig); 
  if(it==nd->sigact.end()||it->second.sa_handler==SIG_DFL){ if(sig==SIGCHLD||sig==SIGURG||sig==SIGWINCH||sig==SIGCONT) return true; rlog("default action of signal %d kills process",sig); node_die(f->node,128+sig,false); return true; }
  if(it->second.sa_handler==SIG_IGN) return true;
  struct sigaction sa=it->second; u64 old=f->sigmask; for(int i=1;i<64;i++) if(sigismember(&sa.sa_mask,i)) f->sigmask|=1ull<<i; f->sigmask|=1ull<<sig; f->in_handler++; int e=errno;
  mix(0x516000+sig);
  if(sa.sa_flags&SA_SIGINFO){ siginfo_t si; memset(&si,0,sizeof si); si.si_signo=sig; sa.sa_sigaction(sig,&si,nullptr); } else sa.sa_handler(sig);
  errno=e; f->in_handler--; f->sigmask=old; return true; }
void run_signals(){ while(cur->sigpend&~cur->sigmask) if(!sig_run_one(cur)) break; }
static void sig_to(Fiber *f,int sig){ if(getenv("SIGDBG")) rlog("sig %d to f%d mask %llx st %d wk %d",sig,f->id,(unsigned long long)f->sigmask,f->st,f->wk); f->sigpend|=1ull<<sig; if(f->sigmask>>sig&1) return; 
  NodeP *nd=nodes[f->node]; auto it=nd->sigact.find(sig); if(it!=nd->sigact.end()&&it->second.sa_handler==SIG_IGN){ f->sigpend&=~(1ull<<sig); return; }
  if(f->st==F_BLOCK&&(f->wk==W_IO||f->wk==W_SLEEP)){ f->interrupted=true; wake(f); }
  else if(f->st==F_BLOCK&&(f->wk==W_COND||f->wk==W_MUTEX||f->wk==W_JOIN)){ /* handler runs, then the wait resumes */ f->interrupted=true; wake(f);} }
void take_node_pending(){ u64 &p=nodes[cur->node]->sigpend; u64 t=p&~cur->sigmask; if(t){ p&=~t; cur->sigpend|=t; } }
static void raise_node(int n,int sig){ // kernel picks any thread not blocking it
  std::vector<Fiber*> c; for(auto f:live) if(f->node==n&&f->st!=F_DEAD&&!(f->sigmask>>sig&1)&&!f->harness) c.push_back(f);
  if(c.empty()){ nodes[n]->sigpend|=1ull<<sig; return; } // stays pending for the process
  sig_to(c[choose(c.size())],sig); }
extern "C" {
int sigaction(int sig,const struct sigaction *a,struct sigaction *o){ if(!g_sim) return REAL(sigaction)(sig,a,o); NodeP *p=curnode(); if(o){ auto it=p->sigact.find(sig); if(it!=p->sigact.end()) *o=it->second; else memset(o,0,sizeof *o); } if(a) p->sigact[sig]=*a; return 0; }
sighandler_t signal(int sig,sighandler_t h){ if(!g_sim) return REAL(signal)(sig,h); struct sigaction a,o; memset(&a,0,sizeof a); a.sa_handler=h; sigaction(sig,&a,&o); return o.sa_handler; }
int pthread_sigmask(int how,const sigset_t *set,sigset_t *old){ if(!g_sim) return REAL(pthread_sigmask)(how,set,old); if(old){ sigemptyset(old); for(int i=1;i<64;i++) if(cur->sigmask>>i&1) sigaddset(old,i); }
  if(set){ u64 m=0; for(int i=1;i<64;i++) if(sigismember(set,i)==1) m|=1ull<<i; if(how==SIG_BLOCK) cur->sigmask|=m; else if(how==SIG_UNBLOCK) cur->sigmask&=~m; else cur->sigmask=m; take_node_pending(); run_signals(); } return 0; }
int sigprocmask(int how,const sigset_t *set,sigset_t *old){ if(!g_sim) return REAL(sigprocmask)(how,set,old); return pthread_sigmask(how,set,old); }
static Fiber *by_pt(pthread_t t){ u64 id=(u64)t-0x700000; if(id<fibers.size()) return fibers[id]; return nullptr; }
int pthread_kill(pthread_t t,int sig){ if(!g_sim) return REAL(pthread_kill)(t,sig); sched_point(__builtin_return_address(0)); Fiber *f=by_pt(t); if(!f) { rlog("pthread_kill: no such thread"); return ESRCH; } if(f->st==F_DEAD) return f->joined?ESRCH:0; if(sig) sig_to(f,sig); if(f==cur) run_signals(); sched_point(__builtin_return_address(0)); return 0; }
int kill(pid_t pid,int sig){ if(!g_sim) return REAL(kill)(pid,sig); for(auto n:nodes) if(n->alive&&n->pid==pid){ if(sig) raise_node(n->idx,sig); sched_point(__builtin_return_address(0)); return 0; } errno=ESRCH; return -1; }
int raise(int sig){ if(!g_sim) return REAL(raise)(sig); sig_to(cur,sig); run_signals(); return 0; }
void abort(){ if(g_sim) violation("abort","process called abort(): %s",backtrace_str().c_str()); g_sim=false; syscall(SYS_kill,syscall(SYS_getpid),SIGABRT); syscall(SYS_exit_group,134); __builtin_unreachable(); }
void exit(int c){ if(g_sim){ node_die(cur->node,c,false); } REAL(exit)(c); __builtin_unreachable(); }
void _exit(int c){ if(g_sim){ node_die(cur->node,c,false); } syscall(SYS_exit_group,c); __builtin_unreachable(); }

//---------------------------------------------------------------- threads
int pthread_create(pthread_t *t,const pthread_attr_t *at,void *(*start)(void*),void *arg){
  if(!g_sim) { const char m[]="sim: thread created outside simulation\n"; syscall(SYS_write,2,m,sizeof m-1); syscall(SYS_exit_group,95); }
  int n=0; for(auto f:live) if(f->node==cur->node&&f->st!=F_DEAD) n++; if(fibers.size()>20000) finish(3,"discard","too many threads created in this run");
  Dl_info d; const char *nm="thread"; std::string s_; if(dladdr((void*)start,&d)&&d.dli_sname) nm=d.dli_sname; int st; char *dm=abi::__cxa_demangle(nm,0,0,&st); s_=dm?dm:nm; free(dm); if(s_.size()>60) s_.resize(60);
  Fiber *f=new_fiber(cur->node,start,arg,s_.c_str()); f->sigmask=cur->sigmask; 
  int ds=0; if(at){ pthread_attr_getdetachstate(at,&ds); f->detached=ds==PTHREAD_CREATE_DETACHED; }
  *t=(pthread_t)(0x700000+f->id); sched_point(__builtin_return_address(0)); return 0; }
pthread_t pthread_self(){ if(!g_sim||!cur) return REAL(pthread_self)(); return (pthread_t)(0x700000+cur->id); }
int pthread_join(pthread_t t,void **ret){ if(!g_sim) return REAL(pthread_join)(t,ret); sched_point(__builtin_return_address(0)); cancel_point(); Fiber *f=by_pt(t); if(!f) return ESRCH; if(f==cur) return EDEADLK; if(f->joined||f->detached) return EINVAL;
  while(f->st!=F_DEAD){ block(W_JOIN,f,0); if(cur->sigpend) run_signals(); cancel_point(); } f->joined=true; if(ret) *ret=f->ret; return 0; }
int pthread_detach(pthread_t t){ if(!g_sim) return REAL(pthread_detach)(t); Fiber *f=by_pt(t); if(!f) return ESRCH; f->detached=true; return 0; }
void pthread_exit(void *r){ if(!g_sim) REAL(pthread_exit)(r); unwind_exit(r); __builtin_unreachable(); }
int pthread_cancel(pthread_t t){ if(!g_sim) return REAL(pthread_cancel)(t); sched_point(__builtin_return_address(0)); Fiber *f=by_pt(t); if(!f||(f->st==F_DEAD&&f->joined)) return ESRCH; if(f->st==F_DEAD) return 0; f->cancel_pending=true;
  if(f->cancel_enabled&&f->st==F_BLOCK&&(f->wk==W_IO||f->wk==W_COND||f->wk==W_SLEEP||f->wk==W_JOIN)){ wake(f); }
  if(f==cur) {} return 0; }
void pthread_testcancel(){ if(!g_sim) return; sched_point(__builtin_return_address(0)); cancel_point(); }
int pthread_setcancelstate(int st,int *o){ if(!g_sim) return REAL(pthread_setcancelstate)(st,o); if(o) *o=cur->cancel_enabled?PTHREAD_CANCEL_ENABLE:PTHREAD_CANCEL_DISABLE; if(!cur->exiting) cur->cancel_enabled=st==PTHREAD_CANCEL_ENABLE; return 0; }
int pthread_setcanceltype(int,int *o){ if(o) *o=PTHREAD_CANCEL_DEFERRED; return 0; }
int sched_yield(){ if(g_sim){ sched_point(__builtin_return_address(0)); return 0; } return 0; }

//---------------------------------------------------------------- mutexes: state lives in the pthread_mutex_t itself
struct SimMutex { u32 lock; u32 count; u32 owner; u32 nusers; int kind; };
static_assert(sizeof(SimMutex)<=sizeof(pthread_mutex_t),"");
int pthread_mutex_init(pthread_mutex_t *m,const pthread_mutexattr_t *a){ memset(m,0,sizeof *m); int k=0; if(a) pthread_mutexattr_gettype(a,&k); ((SimMutex*)m)->kind=k; return 0; }
static void mutex_check(const void *m,const char *op);
int pthread_mutex_destroy(pthread_mutex_t *m_){ if(g_sim){ SimMutex *m=(SimMutex*)m_; mutex_check(m_,"destroy"); if(m->lock) return EBUSY; } return 0; }
static void mutex_check(const void *m,const char *op){ if((u64)m-ARENA<ARENA_SZ){ u8 s_=*(u8*)(SHADOW+((u64)m-ARENA)/16); if(s_!=1){ std::string w; heap_report(m,w); violation("use-after-free","mutex %s on freed memory: %s; at %s",op,w.c_str(),backtrace_str().c_str()); } } }
static int sim_mlock(SimMutex *m,bool try_){
  for(;;){
    if(!m->lock){ m->lock=1; m->owner=cur->id+1; m->count=1; return 0; }
    if(m->owner==(u32)cur->id+1){ if(m->kind==PTHREAD_MUTEX_RECURSIVE_NP){ m->count++; return 0; } if(try_) return EBUSY; if(m->kind==PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK; }
    if(try_) return EBUSY;
    mutex_check(m,"lock");
    block(W_MUTEX,m,0); if(cur->sigpend&~cur->sigmask) run_signals(); } }
int pthread_mutex_lock(pthread_mutex_t *m){ if(!g_sim){ ((SimMutex*)m)->lock=0; return 0; } SwitchGuard sg; if(!cur->atomic) sched_point(__builtin_return_address(0)); mutex_check(m,"lock"); return sim_mlock((SimMutex*)m,false); }
int pthread_mutex_trylock(pthread_mutex_t *m){ if(!g_sim) return 0; SwitchGuard sg; if(!cur->atomic) sched_point(__builtin_return_address(0)); mutex_check(m,"trylock"); return sim_mlock((SimMutex*)m,true); }
static int sim_munlock(SimMutex *m){ if(!m->lock||m->owner!=(u32)cur->id+1){ if(m->kind!=0) return EPERM; if(!m->lock) { rlog("unlock of an unlocked mutex: %s",backtrace_str().c_str()); return 0; } violation("mutex-misuse","mutex unlocked by a thread that does not own it: %s",backtrace_str().c_str()); }
  if(--m->count) return 0; m->lock=0; m->owner=0; for(auto f:live) if(f->st==F_BLOCK&&f->wk==W_MUTEX&&f->wobj==m) wake(f); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m){ if(!g_sim) return 0; SwitchGuard sg; mutex_check(m,"unlock"); int r=sim_munlock((SimMutex*)m); if(!cur->atomic) sched_point(__builtin_return_address(0)); return r; }
int pthread_mutex_timedlock(pthread_mutex_t *m,const timespec*){ return pthread_mutex_lock(m); }
int pthread_rwlock_init(pthread_rwlock_t *r,const pthread_rwlockattr_t*){ memset(r,0,sizeof *r); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*){ return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *r){ return pthread_mutex_lock((pthread_mutex_t*)r); } // conservative: exclusive (only used inside libc/casacore)
int pthread_rwlock_wrlock(pthread_rwlock_t *r){ return pthread_mutex_lock((pthread_mutex_t*)r); }
int pthread_rwlock_unlock(pthread_rwlock_t *r){ return pthread_mutex_unlock((pthread_mutex_t*)r); }
//---------------------------------------------------------------- condition variables
static u64 g_wallbase=1700000000ull*1000000000ull; i64 g_walljump=0;
static u64 wall(){ return g_wallbase+g_now+g_walljump; }
int pthread_cond_init(pthread_cond_t *c,const pthread_condattr_t*){ memset(c,0,sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *){ return 0; }
struct CondWait { CondWait(void *c){ cur->cw=c; cur->cwoken=false; } ~CondWait(){ cur->cw=nullptr; } }; // a signal handler may run in between: still waiting
static int cwait(pthread_cond_t *c,pthread_mutex_t *m_,u64 deadline){
  SimMutex *m=(SimMutex*)m_; bool timed2=false; SwitchGuard sg; mutex_check(c,"cond wait"); if(deadline==0||1) sched_point(__builtin_return_address(0)); cancel_point();
  if(!m->lock||m->owner!=(u32)cur->id+1) violation("mutex-misuse","condition wait with a mutex the thread does not hold: %s",backtrace_str().c_str());
  u32 cnt=m->count; if(cnt>1){ // as glibc: a recursively held mutex is not released by the wait
    rlog("condition wait on a mutex held %u times: it stays locked",cnt); m->count--; CondWait cw(c); for(;;){ if(cur->cwoken) break; if(deadline&&g_now>=deadline){ timed2=true; break; } block(W_COND,c,deadline); if(cur->cancel_pending&&cur->cancel_enabled) break; if(cur->interrupted){ run_signals(); continue; } } m->count++; cancel_point(); return timed2?ETIMEDOUT:0; }
  bool spur=!cur->harness&&flip(sim_faults.cond_spurious,"cond_spurious_wakeup");
  bool timed=false;
  // release, wait, re-acquire
  m->lock=0; m->owner=0; m->count=0; for(auto f:live) if(f->st==F_BLOCK&&f->wk==W_MUTEX&&f->wobj==m) wake(f);
  if(spur){ if(!cur->atomic) sched_point(__builtin_return_address(0)); }
  else { CondWait cw(c); for(;;){ if(cur->cwoken) break; if(deadline&&g_now>=deadline){ timed=true; break; } block(W_COND,c,deadline); bool in=cur->interrupted; 
    if(cur->cancel_pending&&cur->cancel_enabled) break;
    if(in) run_signals(); } }
  sim_mlock(m,false); m->count=cnt; 
  cancel_point(); return timed?ETIMEDOUT:0; }
int pthread_cond_wait(pthread_cond_t *c,pthread_mutex_t *m){ if(!g_sim) return 0; return cwait(c,m,0); }
static u64 wall2mono(const timespec *ts){ i64 w=(i64)ts->tv_sec*1000000000ll+ts->tv_nsec; i64 d=w-(i64)wall(); return d<=0?g_now:g_now+d; }
int pthread_cond_timedwait(pthread_cond_t *c,pthread_mutex_t *m,const timespec *ts){ if(!g_sim) return 0; if(ts->tv_nsec<0||ts->tv_nsec>=1000000000) return EINVAL; u64 d=wall2mono(ts); return cwait(c,m,d?d:1); }
int pthread_cond_clockwait(pthread_cond_t *c,pthread_mutex_t *m,clockid_t id,const timespec *ts){ if(!g_sim) return 0; if(id==CLOCK_REALTIME) return pthread_cond_timedwait(c,m,ts); u64 d=(u64)ts->tv_sec*1000000000ull+ts->tv_nsec; return cwait(c,m,d?d:1); }
int pthread_cond_signal(pthread_cond_t *c){ if(!g_sim) return 0; SwitchGuard sg; mutex_check(c,"cond signal"); if(!cur->atomic) sched_point(__builtin_return_address(0)); std::vector<Fiber*> w; for(auto f:live) if(f->cw==c&&!f->cwoken&&f->st!=F_DEAD) w.push_back(f);
  if(!w.empty()){ Fiber *f=w[g_calm?0:choose(w.size())]; f->cwoken=true; if(f->wk==W_COND) wake(f); } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c){ if(!g_sim) return 0; SwitchGuard sg; mutex_check(c,"cond broadcast"); if(!cur->atomic) sched_point(__builtin_return_address(0)); for(auto f:live) if(f->cw==c&&!f->cwoken&&f->st!=F_DEAD){ f->cwoken=true; if(f->wk==W_COND) wake(f);} return 0; }
//---------------------------------------------------------------- once, guards, keys
int pthread_once(pthread_once_t *o,void (*fn)(void)){ int *p=(int*)o; if(!g_sim){ if(*p!=2){ *p=1; fn(); *p=2; } return 0; } while(*p==1) block(W_ONCE,o,0); if(*p==0){ *p=1; fn(); *p=2; for(auto f:live) if(f->st==F_BLOCK&&f->wk==W_ONCE&&f->wobj==o) wake(f); } return 0; }
int sim_ga(u64 *g) __asm__("__cxa_guard_acquire"); void sim_gr(u64*) __asm__("__cxa_guard_release"); void sim_gb(u64*) __asm__("__cxa_guard_abort");
int sim_ga(u64 *g){ u8 *b=(u8*)g; if(b[0]) return 0; while(b[1]){ if(!g_sim) return 0; block(W_GUARD,g,0); if(b[0]) return 0; } b[1]=1; return 1; }
static void guard_wake(void*g){ if(g_sim) for(auto f:live) if(f->st==F_BLOCK&&f->wk==W_GUARD&&f->wobj==g) wake(f); }
void sim_gr(u64 *g){ u8 *b=(u8*)g; b[0]=1; b[1]=0; guard_wake(g); }
void sim_gb(u64 *g){ u8 *b=(u8*)g; b[1]=0; guard_wake(g); }
static std::vector<void(*)(void*)> *keyd; static std::map<unsigned,void*> *boot_keys;
int pthread_key_create(pthread_key_t *k,void (*d)(void*)){ if(!keyd) keyd=new std::vector<void(*)(void*)>; keyd->push_back(d); *k=keyd->size()-1; return 0; }
int pthread_key_delete(pthread_key_t k){ if(keyd&&k<keyd->size()) (*keyd)[k]=nullptr; return 0; }
void *pthread_getspecific(pthread_key_t k){ std::map<unsigned,void*> *m=(g_sim&&cur)?&cur->keys:boot_keys; if(!m) return 0; auto it=m->find(k); return it==m->end()?nullptr:it->second; }
int pthread_setspecific(pthread_key_t k,const void *v){ if(g_sim&&cur) cur->keys[k]=(void*)v; else { if(!boot_keys) boot_keys=new std::map<unsigned,void*>; (*boot_keys)[k]=(void*)v; } return 0; }
//---------------------------------------------------------------- time
int gettimeofday(struct timeval *tv,void *tz){ if(!g_sim){ timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; } g_now+=50; u64 w=wall(); tv->tv_sec=w/1000000000; tv->tv_usec=w%1000000000/1000; return 0; }
int clock_gettime(clockid_t id,struct timespec *ts){ if(!g_sim) return syscall(SYS_clock_gettime,id,ts); g_now+=50; u64 w=id==CLOCK_REALTIME?wall():g_now; ts->tv_sec=w/1000000000; ts->tv_nsec=w%1000000000; return 0; }
time_t time(time_t *t){ time_t r; if(!g_sim){ timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); r=ts.tv_sec; } else r=wall()/1000000000; if(t) *t=r; return r; }
clock_t times(struct tms *t){ if(!g_sim) return syscall(SYS_times,t); if(t) memset(t,0,sizeof *t); return g_now/10000000; }
clock_t clock(){ return g_now/1000; }
int getrusage(int w,struct rusage *r){ if(!g_sim) return syscall(SYS_getrusage,w,r); memset(r,0,sizeof *r); return 0; }
static int slp(u64 ns){ sched_point(__builtin_return_address(0)); cancel_point(); u64 d=g_now+ns; while(g_now<d){ if(cur->sigpend&~cur->sigmask){ run_signals(); errno=EINTR; return -1; } block(W_SLEEP,0,d); cancel_point(); } return 0; }
int nanosleep(const timespec *ts,timespec *rem){ if(!g_sim) return syscall(SYS_nanosleep,ts,rem); if(rem) memset(rem,0,sizeof *rem); return slp((u64)ts->tv_sec*1000000000ull+ts->tv_nsec); }
int clock_nanosleep(clockid_t,int,const timespec *ts,timespec *rem){ return nanosleep(ts,rem); }
int usleep(useconds_t us){ if(!g_sim){ timespec ts={(time_t)(us/1000000),(long)(us%1000000)*1000}; return syscall(SYS_nanosleep,&ts,0); } return slp((u64)us*1000); }
unsigned sleep(unsigned sec){ if(!g_sim) return 0; return slp((u64)sec*1000000000ull)<0?1:0; }
pid_t getpid(){ if(!g_sim) return syscall(SYS_getpid); return curnode()->pid; }
uid_t getuid(){ return 1000; }
int gethostname(char *b,size_t n){ if(!g_sim){ snprintf(b,n,"host"); return 0; } snprintf(b,n,"%s",curnode()->host.c_str()); return 0; }
static u64 rnd_state=88172645463325252ull;
long random(){ rnd_state=rnd_state*6364136223846793005ull+1442695040888963407ull; return (rnd_state>>33)&0x7fffffff; }
int rand(){ return random(); } void srandom(unsigned){} void srand(unsigned){}

//---------------------------------------------------------------- harness API
static std::map<std::string,double> *params; 
void sim_set_param(const char *k,double v){ if(!params) params=new std::map<std::string,double>; (*params)[k]=v; }
double sim_param(const char *k,double d){ if(!params) return d; auto it=params->find(k); return it==params->end()?d:it->second; }
int sim_tier(){ return (int)sim_param("tier",0); }
u64 sim_seed(){ return g_seed; }
u64 sim_choose(u64 n,const char*){ return choose(n); }
int sim_flip(double p,const char*){ if(p<=0) return 0; return decision(2,[&]{ return (u64)(rng_u()<p); }); }
u64 sim_now_ns(){ return g_now; }
u64 sim_seq(){ return ++g_seqno; }
void sim_log(const char *fmt,...){ va_list ap; va_start(ap,fmt); rlogv(fmt,ap); va_end(ap); }
void sim_state(u64 h){ for(u32 i=0;i<shm->nstates;i++) if(shm->states[i]==h) return; if(shm->nstates<4096) shm->states[shm->nstates++]=h; }
void sim_probe(const char *n){ for(u32 i=0;i<shm->nprobe;i++) if(!strcmp(shm->probe[i].name,n)){ shm->probe[i].n++; return; } if(shm->nprobe<96){ snprintf(shm->probe[shm->nprobe].name,48,"%s",n); shm->probe[shm->nprobe++].n=1; } }
u64 sim_probe_count(const char *n){ for(u32 i=0;i<shm->nprobe;i++) if(!strcmp(shm->probe[i].name,n)) return shm->probe[i].n; return 0; }
void sim_violation(const char *cls,const char *fmt,...){ char b[8192]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); rlog("VIOLATION %s: %s",cls,b); violation(cls,"%s",b); }
void sim_pass(){ finish(1,"",""); }
void sim_discard(const char *w){ finish(3,"discard",w); }
void sim_known(const char *id,const char *fmt,...){ for(u32 i=0;i<shm->nknown;i++) if(!strcmp(shm->known[i].id,id)) return; if(shm->nknown<16){ auto &k=shm->known[shm->nknown++]; snprintf(k.id,48,"%s",id); va_list ap; va_start(ap,fmt); vsnprintf(k.msg,256,fmt,ap); va_end(ap);} }
struct Tramp { void (*fn)(void*); void *arg; };
static void *tramp(void *p){ Tramp t=*(Tramp*)p; delete (Tramp*)p; t.fn(t.arg); return 0; }
int sim_spawn(void (*fn)(void*),void *arg,const char *name){ Fiber *f=new_fiber(cur->node,tramp,new Tramp{fn,arg},name); f->sigmask=cur->sigmask; f->harness=false; return f->id; }
void sim_join(int id){ Fiber *f=fibers[id]; while(f->st!=F_DEAD) block(W_JOIN,f,0); }
void sim_yield(){ sched_point(__builtin_return_address(0)); }
void sim_sleep_ns(u64 ns){ slp(ns); }
int sim_wait(int (*pred)(void*),void *arg,u64 to){ u64 d=g_now+to; for(;;){ bool g=g_sim; g_sim=false; int r=pred(arg); g_sim=g; if(r) return 1; if(g_now>=d) return 0; cur->pred=pred; cur->pred_arg=arg; block(W_PRED,0,d); cur->pred=nullptr; } }
void sim_calm(){ g_calm=true; memset(&sim_faults,0,sizeof sim_faults); sim_faults.disk_quota=-1; sim_faults.net_lat_min=20000; sim_faults.net_lat_max=100000; sim_faults.net_sndbuf=1<<18; }
void sim_wild(){ g_calm=false; }
void sim_dump(){ dump_fibers(g_dump); }
void sim_atomic_begin(){ cur->atomic++; } void sim_atomic_end(){ cur->atomic--; }
void sim_instr(int on){ cur->instr=on; }
int sim_live_fibers(int n){ int c=0; for(auto f:live) if(f->node==n&&f->st!=F_DEAD&&f!=cur) c++; return c; }
int sim_self(){ return cur?cur->id:-1; }
int sim_fiber_blocked(int id){ return fibers[id]->st==F_RUN?0:fibers[id]->st==F_DEAD?2:1; }
void sim_set_pct_allowed(int){ }
int sim_node(){ return cur->node; }
int sim_node_alive(int n){ return nodes[n]->alive; }
int sim_node_exited(int n,int *c){ if(c) *c=nodes[n]->exit_code; return nodes[n]->exited; }
void sim_node_crash(int n){ fault_fired("process_crash"); node_die(n,137,true); }
void sim_node_signal(int n,int sig){ fault_fired("signal"); if(nodes[n]->alive) raise_node(n,sig); }
void sim_fault_count(const char *k){ fault_fired(k); }
void sim_clock_jump(i64 ns){ fault_fired("wall_clock_jump"); g_walljump+=ns; }
}
static void run_key_dtors(){ for(int r=0;r<4;r++){ auto m=cur->keys; cur->keys.clear(); bool any=false; for(auto &kv:m) if(kv.second&&keyd&&(*keyd)[kv.first]){ any=true; (*keyd)[kv.first](kv.second); } if(!any) break; } }
//---------------------------------------------------------------- boot
static void segv(int sig,siginfo_t *si,void *uc_){ ucontext_t *uc=(ucontext_t*)uc_; void *rip=(void*)uc->uc_mcontext.gregs[REG_RIP]; g_sim=false;
  bool so=cur&&(char*)si->si_addr>=cur->stk_lo&&(char*)si->si_addr<cur->stk_lo+8192;
  char cls[40]; snprintf(cls,sizeof cls,"%s",so?"stack-overflow":sig==SIGSEGV?"segv":sig==SIGFPE?"sigfpe":sig==SIGBUS?"sigbus":"sigill"); const char *nullish=(u64)si->si_addr<65536?" (near null)":"";
  std::string bt=so?"":backtrace_str(rip); violation(cls,"fatal signal %d%s in %s",sig,nullish,bt.c_str()); }
static std::string dlpath_next; static std::vector<void*> dl_copies; static size_t dl_used=0;
void set_copies(const std::vector<void*>&v){ dl_copies=v; dl_used=0; }
typedef void (*node_main_t)(int,void*);
static void *node_boot(void *){ NodeP *p=curnode(); node_main_t m=(node_main_t)dlsym(p->dl,"node_main"); if(!m) violation("harness","no node_main"); m(p->role,p->shared); node_die(p->idx,0,false); return 0; }
extern "C" int sim_node_start(const char *host,int role,void *shared){
  if(dl_used>=dl_copies.size()) finish(3,"discard","out of process images");
  NodeP *p=new NodeP; p->idx=nodes.size(); p->host=host; p->pid=1000+p->idx*7; p->role=role; p->shared=shared; p->dl=dl_copies[dl_used++]; p->cwd=std::string("/sim/")+host; nodes.push_back(p);
  Fiber *f=new_fiber(p->idx,node_boot,nullptr,"main"); (void)f; rlog("process n%d started on %s role %d",p->idx,host,role); return p->idx; }
static void *boot_sp; 
static void term_handler(){ std::string nm="?"; std::type_info *t=abi::__cxa_current_exception_type(); if(t) nm=t->name(); violation("terminate","std::terminate called (%s): %s",nm.c_str(),backtrace_str().c_str()); }
void run_child(u64 seed,const char *host){ heap_child(); step_limit=(u64)sim_param("steplimit",(double)step_limit); // never returns
  g_seed=seed; rng_seed(seed*0x9e3779b97f4a7c15ull+12345); sched_init_policy();
  static char alt[1<<17]; stack_t ss; ss.ss_sp=alt; ss.ss_size=sizeof alt; ss.ss_flags=0; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=segv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; for(int sg:{SIGSEGV,SIGBUS,SIGFPE,SIGILL}) REAL(sigaction)(sg,&sa,0);
  std::set_terminate(term_handler);
  rnd_state^=0; sim_faults.disk_quota=-1; sim_faults.net_lat_min=20000; sim_faults.net_lat_max=200000; sim_faults.net_sndbuf=1<<16;
  { // swarm: heap fill pattern
    u64 v=decision(3,[&]{ return rng_next()%3; }); g_fill=v==0?0:v==1?0xA5:0xFF; }
  cur=nullptr; nodes.clear(); fibers.clear(); 
  Fiber boot; boot.id=0; cur=&boot; 
  cur=&boot; sim_node_start(host,0,nullptr); Fiber *f=fibers[0]; f->harness=true; 
  abi::__cxa_get_globals(); cur=f; g_sim=true; sim_swap(&boot_sp,f->sp); abort(); }
