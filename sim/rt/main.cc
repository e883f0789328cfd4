// Runner: preloads process images, forks one child per run, collects results, replays, minimises.
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <algorithm>
void set_replay(const TraceEnt*,size_t); void set_copies(const std::vector<void*>&); void run_child(u64 seed,const char *host); extern "C" void sim_set_param(const char*,double);
extern char **environ;
static double now(){ timespec ts; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&ts); return ts.tv_sec+ts.tv_nsec*1e-9; }
static std::string esc(const std::string &s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
static int verbose=0; static double run_timeout=60;
static void do_run(u64 seed,const std::vector<TraceEnt>*tr){
  // reset the per-run part of the shared area
  shm->verdict=0; shm->cls[0]=shm->msg[0]=0; shm->loglen=0; shm->hash=shm->ndec=shm->nswitch=shm->events=shm->simtime=shm->npreempt=shm->ntrace=0; shm->nfault=shm->nprobe=shm->nknown=0; shm->nstates=0;
  fflush(stdout); pid_t p=syscall(SYS_fork);
  if(p==0){ if(!verbose){ int n=syscall(SYS_openat,AT_FDCWD,"/dev/null",O_RDWR,0); syscall(SYS_dup2,n,1); syscall(SYS_dup2,n,2); }
    if(tr) set_replay(tr->data(),tr->size()); run_child(seed,"h1"); }
  double t0=now(); int st; for(;;){ int r=syscall(SYS_wait4,p,&st,WNOHANG,0); if(r==p) break; double el=now()-t0; if(el>run_timeout){ syscall(SYS_kill,p,9); syscall(SYS_wait4,p,&st,0,0); shm->verdict=2; strcpy(shm->cls,"hang"); snprintf(shm->msg,sizeof shm->msg,"run did not end in %.0f s of real time",run_timeout); shm->hash=0; return; } timespec ts={0,el<0.01?100000:1000000}; syscall(SYS_nanosleep,&ts,0); }
  if(shm->verdict==0){ shm->verdict=2; snprintf(shm->cls,64,"died"); snprintf(shm->msg,sizeof shm->msg,"simulation process died without a verdict (status %x)",st); } }
struct Res { int verdict; std::string cls,msg,log; u64 hash,ndec,nswitch,events,simtime; std::vector<TraceEnt> tr; };
static Res grab(bool log){ Res r; r.verdict=shm->verdict; r.cls=shm->cls; r.msg=shm->msg; if(log) r.log.assign(shm->log,shm->loglen); r.hash=shm->hash; r.ndec=shm->ndec; r.nswitch=shm->nswitch; r.events=shm->events; r.simtime=shm->simtime; r.tr.assign(shm->trace,shm->trace+shm->ntrace); return r; }
static bool same(const Res &a,const Res &b){ return a.verdict==b.verdict&&a.cls==b.cls; }
static void write_trace(const char *fn,const std::vector<TraceEnt>&t){ FILE *f=fopen(fn,"w"); for(auto &e:t) fprintf(f,"%llu %llu\n",(unsigned long long)e.idx,(unsigned long long)e.val); fclose(f); }
int main(int argc,char **argv){ if(!getenv("SIM_POOL")) setenv("GLIBCXX_FORCE_NEW","1",1);  /* pool allocator off: every block is seen by the checked heap */
 
  if(!getenv("SIM_NOASLR")){ setenv("SIM_NOASLR","1",1); int pers=syscall(SYS_personality,0xffffffff); if(pers!=-1&&syscall(SYS_personality,pers|ADDR_NO_RANDOMIZE)!=-1){ syscall(SYS_execve,"/proc/self/exe",argv,environ); } }
  std::vector<std::string> so; u64 start=1,count=1; double tlimit=1e9; std::string replay,out,mode="run",hashfile; int maxviol=1; double mintime=60; int hash_only=0; u64 stride=1; int stop_on=1;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return argv[++i]; };
    if(a=="--so") so.push_back(nx()); else if(a=="--start") start=strtoull(nx(),0,10); else if(a=="--count") count=strtoull(nx(),0,10); else if(a=="--stride") stride=strtoull(nx(),0,10); else if(a=="--time") tlimit=atof(nx()); else if(a=="--replay") replay=nx(); else if(a=="--out") out=nx(); else if(a=="--mode") mode=nx(); else if(a=="--param"){ std::string kv=nx(); size_t e=kv.find('='); sim_set_param(kv.substr(0,e).c_str(),atof(kv.c_str()+e+1)); } else if(a=="--verbose") verbose++; else if(a=="--maxviol") maxviol=atoi(nx()); else if(a=="--mintime") mintime=atof(nx()); else if(a=="--hashes") hash_only=1; else if(a=="--hashfile") hashfile=nx(); else if(a=="--timeout") run_timeout=atof(nx()); else { fprintf(stderr,"bad arg %s\n",a.c_str()); return 3; } }
  shm=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  std::vector<void*> copies; for(auto &s:so){ void *h=dlopen(s.c_str(),RTLD_NOW|RTLD_LOCAL); if(!h){ fprintf(stderr,"dlopen: %s\n",dlerror()); return 3; } copies.push_back(h); }
  set_copies(copies);
  std::vector<TraceEnt> tr; if(!replay.empty()){ FILE *f=fopen(replay.c_str(),"r"); if(!f){ perror("replay"); return 3; } unsigned long long a,b; while(fscanf(f,"%llu %llu",&a,&b)==2) tr.push_back({a,b}); fclose(f); }
  if(mode=="replay"){ do_run(start,&tr); Res r=grab(true); printf("{\"verdict\":%d,\"cls\":\"%s\",\"hash\":\"%016llx\",\"ndec\":%llu,\"msg\":\"%s\",\"log\":\"%s\"}\n",r.verdict,r.cls.c_str(),(unsigned long long)r.hash,(unsigned long long)r.ndec,esc(r.msg).c_str(),esc(r.log.size()>60000?r.log.substr(r.log.size()-60000):r.log).c_str()); return 0; }
  if(mode=="minimise"){ // ddmin over the sparse non-default decisions, same violation class
    do_run(start,&tr); Res base=grab(false); if(base.verdict!=2){ printf("{\"ok\":false,\"why\":\"trace does not reproduce\"}\n"); return 0; }
    double t0=now(); std::vector<TraceEnt> best=base.tr.size()<=tr.size()?base.tr:tr; size_t n=2; int tests=1;
    auto fails=[&](const std::vector<TraceEnt>&c){ tests++; do_run(start,&c); Res r=grab(false); return same(r,base); };
    { std::vector<TraceEnt> e; if(fails(e)) best=e; }
    while(best.size()>=1&&now()-t0<mintime){ size_t sz=best.size(),chunk=(sz+n-1)/n; bool red=false;
      for(size_t i=0;i<sz&&now()-t0<mintime;i+=chunk){ std::vector<TraceEnt> c; for(size_t k=0;k<sz;k++) if(k<i||k>=i+chunk) c.push_back(best[k]); if(fails(c)){ best=c; red=true; n=std::max<size_t>(n-1,2); break; } }
      if(!red){ if(chunk==1) break; n=std::min(sz,n*2); } }
    do_run(start,&best); Res r=grab(true); if(!same(r,base)){ printf("{\"ok\":false,\"why\":\"minimised trace unstable\"}\n"); return 0; }
    write_trace(out.c_str(),best); printf("{\"ok\":true,\"from\":%zu,\"to\":%zu,\"tests\":%d,\"cls\":\"%s\",\"hash\":\"%016llx\"}\n",tr.size(),best.size(),tests,r.cls.c_str(),(unsigned long long)r.hash); return 0; }
  // run mode
  double t0=now(); u64 pass=0,viol=0,disc=0,lim=0,simtime=0,sw=0,ev=0,pre=0,dec=0,runs=0,maxev=0,maxheap=0; std::map<std::string,u64> faults,probes,known,knownmsg_; std::map<std::string,std::string> kmsg; std::set<u64> hashes,states; u64 faulted=0; 
  for(u64 k=0;k<count&&now()-t0<tlimit;k++){ u64 seed=start+k*stride; do_run(seed,nullptr); runs++;
    if(hash_only) printf("H %llu %016llx %d\n",(unsigned long long)seed,(unsigned long long)shm->hash,shm->verdict);
    switch(shm->verdict){ case 1: pass++; break; case 2: viol++; break; case 3: disc++; break; default: lim++; }
    simtime+=shm->simtime; sw+=shm->nswitch; ev+=shm->events; pre+=shm->npreempt; dec+=shm->ndec; maxev=std::max(maxev,shm->events); maxheap=std::max(maxheap,shm->maxheap);
    hashes.insert(shm->hash); for(u64 i=0;i<shm->nstates;i++) states.insert(shm->states[i]); if(shm->nfault) faulted++;
    for(u32 i=0;i<shm->nfault;i++) faults[shm->fault[i].name]+=shm->fault[i].n; for(u32 i=0;i<shm->nprobe;i++) probes[shm->probe[i].name]+=shm->probe[i].n;
    for(u32 i=0;i<shm->nknown;i++){ known[shm->known[i].id]++; kmsg[shm->known[i].id]=shm->known[i].msg; }
    if(shm->verdict==2){ std::string fn=out+"."+std::to_string(seed)+".trace"; Res r=grab(true); if(!out.empty()) write_trace(fn.c_str(),r.tr);
      printf("V {\"seed\":%llu,\"cls\":\"%s\",\"hash\":\"%016llx\",\"ntrace\":%zu,\"trace\":\"%s\",\"msg\":\"%s\"}\n",(unsigned long long)seed,r.cls.c_str(),(unsigned long long)r.hash,r.tr.size(),fn.c_str(),esc(r.msg).c_str()); if(verbose) { fwrite(r.log.data(),1,r.log.size(),stdout); } fflush(stdout); if((int)viol>=maxviol) break; } 
    else if(verbose>1){ fwrite(shm->log,1,shm->loglen,stdout); } }
  if(!hashfile.empty()){ FILE *f=fopen(hashfile.c_str(),"w"); for(u64 h:hashes) fwrite(&h,8,1,f); fclose(f); }
  u64 pairs=0; for(u8 c:shm->switchpairs) if(c) pairs++;
  printf("S {\"runs\":%llu,\"pass\":%llu,\"viol\":%llu,\"discard\":%llu,\"limit\":%llu,\"simtime_s\":%.6f,\"switches\":%llu,\"events\":%llu,\"preempt\":%llu,\"decisions\":%llu,\"max_events\":%llu,\"distinct\":%zu,\"states\":%zu,\"pairs\":%llu,\"faulted\":%llu,\"wall\":%.3f,\"maxheap\":%llu,\"faults\":{",(unsigned long long)runs,(unsigned long long)pass,(unsigned long long)viol,(unsigned long long)disc,(unsigned long long)lim,simtime/1e9,(unsigned long long)sw,(unsigned long long)ev,(unsigned long long)pre,(unsigned long long)dec,(unsigned long long)maxev,hashes.size(),states.size(),(unsigned long long)pairs,(unsigned long long)faulted,now()-t0,(unsigned long long)maxheap);
  const char *c=""; for(auto &f:faults){ printf("%s\"%s\":%llu",c,f.first.c_str(),(unsigned long long)f.second); c=","; } printf("},\"probes\":{"); c=""; for(auto &f:probes){ printf("%s\"%s\":%llu",c,f.first.c_str(),(unsigned long long)f.second); c=","; } printf("},\"known\":{"); c=""; for(auto &f:known){ printf("%s\"%s\":[%llu,\"%s\"]",c,f.first.c_str(),(unsigned long long)f.second,esc(kmsg[f.first]).c_str()); c=","; }
  printf("},\"states_list\":["); c=""; int lim2=0; for(u64 h:states){ if(++lim2>20000) break; printf("%s%llu",c,(unsigned long long)(h&0xffffffffffffull)); c=","; } printf("]}\n"); fflush(stdout); syscall(SYS_exit_group,0); }
