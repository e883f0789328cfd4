// Event channels and object files (DMI, AppAgent) in simulated processes:
// 1: object files under crashes and torn tails   2: object files on failing disks   3: recording channels
// 4: queue channels between threads              5: event multiplexer
#include <DMI/BOIO.h>
#include <DMI/Record.h>
#include <DMI/List.h>
#include <DMI/Vec.h>
#include <DMI/NumArray.h>
#include <DMI/Exception.h>
#include <DMI/DynamicTypeManager.h>
#include <AppAgent/BOIOChannel.h>
#include <AppAgent/MTQueueChannel.h>
#include <AppAgent/OctoEventMux.h>
#include <AppAgent/EventFlag.h>
#include <OCTOPUSSY/OctopussyConfig.h>
#include <OCTOPUSSY/Octopussy.h>
#include "common.h"
#include <algorithm>
#include <stdexcept>
using std::string; using std::vector; using std::map; using std::set; using DMI::HIID; using DMI::AtomicID; using DMI::TypeId; using DMI::ObjRef; using DMI::BOIO; using DMI::exceptionToString;
#define VIOL(cls,...) sim_violation(cls,__VA_ARGS__)
int aidRegistry_DMI(); int aidRegistry_AppAgent();
// ---- objects, made from a seed
struct Rng { u64 s; u64 operator()(u64 n){ s+=0x9e3779b97f4a7c15ull; u64 z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return (z^(z>>31))%n; } };
static string str_(Rng &r){ int n=r(4)==0?0:r(5)==0?r(200):r(12); string s; for(int i=0;i<n;i++) s+=char(r(3)?'a'+r(26):r(256)); return s; }
static HIID hiid_(Rng &r){ HIID h; int n=r(5); for(int i=0;i<n;i++) h.push_back(AtomicID(r(1000))); return h; }
static DMI::NumArray *arr_(Rng &r){ int rank=1+r(3); LoShape sh; int d[3]={1+(int)r(6),1+(int)r(4),1+(int)r(3)}; if(r(12)==0) d[0]=1000; sh=rank==1?LoShape(d[0]):rank==2?LoShape(d[0],d[1]):LoShape(d[0],d[1],d[2]); int n=rank==1?d[0]:rank==2?d[0]*d[1]:d[0]*d[1]*d[2];
  switch(r(3)){ case 0: { auto *a=new DMI::NumArray(Tpdouble,sh); double *p=(double*)a->getDataPtr(); for(int i=0;i<n;i++) p[i]=r(1000000)*0.25; return a; } case 1: { auto *a=new DMI::NumArray(Tpint,sh); int *p=(int*)a->getDataPtr(); for(int i=0;i<n;i++) p[i]=r(1000000); return a; } case 2: { auto *a=new DMI::NumArray(Tpdcomplex,sh); double *p=(double*)a->getDataPtr(); for(int i=0;i<2*n;i++) p[i]=r(1000000)*0.5; return a; } } return 0; }
static DMI::Vec *vec_(Rng &r,int depth);
static DMI::Record *rec_(Rng &r,int depth);
static DMI::List *list_(Rng &r,int depth){ auto *l=new DMI::List; int n=r(4); for(int i=0;i<n;i++){ switch(r(depth>2?2:4)){ case 0: l->addBack(vec_(r,depth+1)); break; case 1: l->addBack(arr_(r)); break; case 2: l->addBack(rec_(r,depth+1)); break; default: l->addBack(list_(r,depth+1)); } } return l; }
static DMI::Vec *vec_(Rng &r,int depth){ int n=1+r(5); switch(r(depth>2?4:5)){ case 0: { auto *v=new DMI::Vec(Tpint,n); for(int i=0;i<n;i++) (*v)[i]=(int)r(100000); return v; } case 1: { auto *v=new DMI::Vec(Tpdouble,n); for(int i=0;i<n;i++) (*v)[i]=r(100000)*0.125; return v; } case 2: { auto *v=new DMI::Vec(Tpstring,n); for(int i=0;i<n;i++) (*v)[i]=str_(r); return v; } case 3: { auto *v=new DMI::Vec(TpDMIHIID,n); for(int i=0;i<n;i++) (*v)[i]=hiid_(r); return v; } default: { auto *v=new DMI::Vec(TpDMIRecord,n); for(int i=0;i<n;i++) v->put(i,rec_(r,depth+1)); return v; } } }
static DMI::Record *rec_(Rng &r,int depth){ auto *rec=new DMI::Record; int n=r(depth?4:6); for(int i=0;i<n;i++){ HIID f; f.push_back(AtomicID(i)); if(r(3)==0) f.push_back(AtomicID(r(50))); switch(r(depth>2?5:8)){ case 0: (*rec)[f]=(int)r(1000); break; case 1: (*rec)[f]=r(1000)*0.5; break; case 2: (*rec)[f]=str_(r); break; case 3: (*rec)[f]<<=arr_(r); break; case 4: (*rec)[f]<<=vec_(r,depth+1); break; case 5: (*rec)[f]<<=rec_(r,depth+1); break; case 6: (*rec)[f]<<=list_(r,depth+1); break; default: (*rec)[f]=hiid_(r); } } return rec; }
static ObjRef object(u64 seed){ Rng r{seed}; ObjRef ref; switch(r(6)){ case 0: ref<<=(DMI::BObj*)arr_(r); break; case 1: ref<<=(DMI::BObj*)vec_(r,0); break; case 2: ref<<=(DMI::BObj*)list_(r,0); break; default: ref<<=(DMI::BObj*)rec_(r,0); } return ref; }
static string q(const string &s){ string o="\""; char b[8]; for(unsigned char c:s){ if(c>32&&c<127) o+=c; else { snprintf(b,8,"\\%02x",c); o+=b; } } return o+"\""; }
static string desc(const DMI::BObj *o){ if(!o) return "null"; char b[80]; TypeId t=o->objectType();
  if(t==TpDMIRecord){ map<string,string> m; const DMI::Record &r=*(const DMI::Record*)o; for(auto i=r.begin();i!=r.end();i++) m[i.id().toString('.')]=desc(i.ref().deref_p()); string s="{"; for(auto &p:m) s+=p.first+"="+p.second+","; return s+"}"; }
  if(t==TpDMIList){ const DMI::List &l=*(const DMI::List*)o; string s="["; for(int i=0;i<l.numItems();i++){ ObjRef x=l.get(i); s+=desc(x.deref_p())+","; } return s+"]"; }
  if(t==TpDMIVec){ const DMI::Vec &v=*(const DMI::Vec*)o; string s="<"+v.type().toString()+":"; int n=v.size(); for(int i=0;i<n;i++){ if(v.type()==Tpint) s+=std::to_string(v[i].as<int>()); else if(v.type()==Tpdouble){ snprintf(b,80,"%.17g",v[i].as<double>()); s+=b; } else if(v.type()==Tpstring) s+=q(v[i].as<string>()); else if(v.type()==TpDMIHIID) s+=v[i].as<HIID>().toString('.'); else { ObjRef x=v.getObj(i); s+=desc(x.deref_p()); } s+=","; } return s+">"; }
  if(t==TpDMINumArray){ const DMI::NumArray &a=*(const DMI::NumArray*)o; string s="("+a.elementType().toString(); int n=1; for(uint i=0;i<a.shape().size();i++){ n*=a.shape()[i]; s+="x"+std::to_string(a.shape()[i]); } s+=":"; const void *p=a.getConstDataPtr(); for(int i=0;i<n;i++){ if(a.elementType()==Tpint) s+=std::to_string(((int*)p)[i]); else if(a.elementType()==Tpdouble){ snprintf(b,80,"%.17g",((double*)p)[i]); s+=b; } else if(a.elementType()==Tpdcomplex){ snprintf(b,80,"%.17g/%.17g",((double*)p)[2*i],((double*)p)[2*i+1]); s+=b; } else s+=q(((string*)p)[i]); s+=","; } return s+")"; }
  return "?"+t.toString(); }
static string shortS(const string &s){ return s.size()>160?s.substr(0,160)+"...":s; }
// ---- what the processes of a run share
struct Rec { u64 seed=0; int state=0; long end=-1; };  // state: 1 write() called, 2 returned, 3 threw
struct World { int phase=0; vector<Rec> recs; size_t durable=0; bool done=false,ready=false; int mode=0; string path; bool closed=false; int nwrite=0; bool threw=false,damaged=false; vector<u64> seeds; bool append=false; bool del_on_abort=true; int ending=0; size_t acked=0; string err; bool had=false,restarted=false; int total=0; };
static World *W;
static const char *HOST="h1";
static int startProc(int role){ return sim_node_start(HOST,role,W); }
// ---- 1, 2: writer process
static void writer(){ if(W->phase==1) sim_disk_arm_crash(pick(1<<(3+pick(14)),"crash_at")); try { BOIO f; f.open(W->path,W->append?BOIO::APPEND:BOIO::WRITE); W->ready=true; bool fl=pick(3)!=0; 
    for(int i=0;i<W->nwrite;i++){ u64 s=W->seeds[W->recs.size()]; ObjRef o=object(s); { Rec r; r.seed=s; r.state=1; W->recs.push_back(r); } size_t k=W->recs.size()-1;
      try { if(coin(0.5)) f.write(*o); else f<<o; W->recs[k].state=2; W->recs[k].end=f.ftell(); } catch(std::exception &e){ sim_log("write %zu threw: %s",k,exceptionToString(e).c_str()); W->recs[k].state=3; W->threw=true; }
      if(fl&&coin(0.25)){ try { f.flush(); if(!W->threw) W->durable=W->recs.size(); } catch(std::exception &e){ sim_log("flush threw"); W->threw=true; } }
      if(coin(0.1)) sim_sleep_ns(MS); 
      if(W->mode==1&&coin(0.05)&&!W->threw){ f.close(); W->durable=W->recs.size(); f.open(W->path,BOIO::APPEND); } }
    if(W->mode==1||coin(0.9)){ try { f.close(); W->closed=true; if(!W->threw) W->durable=W->recs.size(); } catch(std::exception &e){ sim_log("close threw: %s",exceptionToString(e).c_str()); W->threw=true; } }
    else { sim_sleep_ns(MS); }
  } catch(std::exception &e){ sim_log("writer: %s",exceptionToString(e).c_str()); W->threw=true; W->err=exceptionToString(e); }
  W->done=true; sim_sleep_ns(3600*SEC); }
// reads the file and compares with what was written; returns the number of objects read
static size_t readBack(const string &path,bool &err,bool readerrs,bool revisit){ err=false; size_t n=0; BOIO f; f.open(path,BOIO::READ); sim_log("reading %s: %lld bytes",path.c_str(),(long long)sim_disk_get(HOST,path.c_str(),0,0)); bool rew=false; int after=0;
  while(true){ ObjRef o; TypeId t; try { if(coin(0.2)){ TypeId nt=f.nextType(); (void)nt; } t=f.readAny(o); } catch(std::exception &e){ err=true; sim_log("read error after %zu: %s",n,exceptionToString(e).c_str()); for(int k=pick(4);k>0;k--){ ObjRef g; TypeId gt=0; try { if(coin(0.2)) f.nextType(); gt=f.readAny(g); } catch(std::exception &e1){} if(gt) VIOL("object-after-error","after an error, something within object %zu was taken for an object",n); } break; }
    if(!t){ if(revisit&&!rew&&coin(0.3)){ rew=true; f.rewind(); n=0; after=0; continue; } if(after++<1&&coin(0.3)) continue; break; }
    if(after) VIOL("object-after-end","an object was read after the end of the file had been reported");
    if(n>=W->recs.size()) VIOL("unwritten-object","%zu objects were written, but another one was read: %s",W->recs.size(),shortS(desc(o.deref_p())).c_str());
    if(o->objectType()!=t) VIOL("wrong-object","object %zu has type %s, but %s was returned",n,o->objectType().toString().c_str(),t.toString().c_str());
    ObjRef w=object(W->recs[n].seed); string a=desc(w.deref_p()), b=desc(o.deref_p()); if(a!=b) VIOL("wrong-object","object %zu of the file is not the one that was written:\n wrote %s\n read  %s",n,shortS(a).c_str(),shortS(b).c_str()); n++;
    if(revisit&&!rew&&coin(0.03)){ rew=true; try { if(coin(0.5)) f.nextType(); } catch(std::exception &e){ if(!coin(0.5)){ err=true; break; } } f.rewind(); n=0; after=0; } }
  (void)readerrs; return n; }
static void makeSeeds(int n){ for(int i=0;i<n;i++) W->seeds.push_back(pick(1u<<30,"obj")); }
static void scn_crash(){ W=new World; W->mode=1; W->path="log.boio"; int n=1+pick(sim_tier()?60:20); makeSeeds(n); W->nwrite=n; bool crash=coin(0.7), torn=false; if(coin(0.3)) sim_faults.disk_short=0.3;
  bool armed=crash&&coin(0.6); if(armed) W->phase=1; int node=startProc(1);
  if(crash&&!armed){ { waitFor([]{ return W->ready; },SEC); sim_sleep_ns(pick(100)*100000); if(!W->done) { sim_node_crash(node); torn=true; } } }
  if(!torn&&!waitFor([node]{ return W->done||!sim_node_alive(node); },60*SEC)) VIOL("stuck","the writer does not end");
  if(!sim_node_alive(node)) torn=true; sim_calm(); sim_faults.disk_short=0; if(!torn&&!W->err.empty()) VIOL("write-error","%s",W->err.c_str()); if(!torn&&W->threw) VIOL("write-error","a write failed, but the disk works");
  if(!sim_disk_exists(HOST,W->path.c_str())){ if(W->durable) VIOL("lost-object","%zu objects were flushed, the file does not exist",W->durable); sim_pass(); }
  if(torn) sim_probe("crashed"); size_t full=sim_disk_get(HOST,W->path.c_str(),0,0); bool cut=coin(0.4)&&full; size_t dur=W->durable; if(cut){ size_t k=pick(full+1); sim_disk_truncate(HOST,W->path.c_str(),k); torn=true; dur=0; }
  if(coin(0.3)) sim_faults.disk_short=0.3;
  bool err; size_t got=readBack(W->path,err,false,true); sim_log("%zu written, %zu durable, %zu read%s",W->recs.size(),dur,got,err?", error":"");
  if(got<dur) VIOL("lost-object","%zu objects were flushed, %zu can be read%s",dur,got,err?" before an error":""); if(!torn&&err) VIOL("read-error","error reading an undamaged file"); if(!torn&&got!=W->recs.size()) VIOL("lost-object","%zu objects were written and the file closed, %zu can be read",W->recs.size(),got);
  // every object that is complete is there; if the file ends within one, that is an error and not the end of the file
  long size=sim_disk_get(HOST,W->path.c_str(),0,0); size_t whole=0; bool edge=size==0; bool known=true; for(auto &r:W->recs){ if(r.end<0){ known=false; break; } if(r.end<=size) whole++; if(r.end==size) edge=true; }
  if(got<whole) VIOL("lost-object","%zu objects are complete in the file, %zu can be read",whole,got); if(known||(!W->recs.empty()&&W->recs.back().end<0&&size<=(W->recs.size()>1?W->recs[W->recs.size()-2].end:0))){ if(edge&&err) VIOL("read-error","the file ends with an object, but reading it fails"); if(!edge&&!err) VIOL("cut-unnoticed","the file ends within an object (%ld bytes), but this is not reported",size); }
  sim_state(mixh(got,err)); 
  sim_pass(); }
// ---- 2: failing disks: whatever could not be stored is reported to the writer, whatever cannot be read to the reader
static void scn_diskerr(){ W=new World; W->mode=2; W->path="log.boio"; int n=1+pick(sim_tier()?60:20); makeSeeds(n); W->nwrite=n; if(coin(0.5)) sim_faults.disk_short=0.2; int kind=pick(3,"kind"); bool rd=coin(0.25);
  if(!rd){ if(kind!=1) sim_faults.disk_quota=pick(1<<(4+pick(13)),"quota"); if(kind!=0) sim_faults.disk_write_err=0.02+0.1*pick(5); }
  startProc(1); if(!waitFor([]{ return W->done; },600*SEC)) VIOL("stuck","the writer does not end"); sim_calm(); bool fault=sim_probe_count("fault:disk_full")||sim_probe_count("fault:disk_write_error"); sim_faults.disk_short=0; sim_faults.disk_write_err=0; sim_faults.disk_quota=-1;
  if(!sim_disk_exists(HOST,W->path.c_str())){ if(!W->threw) VIOL("unreported","the file could not be made, but no error was reported"); sim_pass(); } (void)fault;
  if(rd){ if(W->threw) VIOL("write-error","writing failed on a working disk: %s",W->err.c_str()); sim_wild(); sim_faults.disk_read_err=0.02+0.1*pick(4); sim_faults.disk_short=coin(0.5)?0.2:0; static bool err,rdone; static size_t got; err=rdone=false; got=0; spawn("reader",[]{ got=readBack(W->path,err,true,coin(0.5)); rdone=true; }); if(!waitFor([]{ return rdone; },600*SEC)) VIOL("stuck","the reader does not end"); if(W->closed&&!err&&got<W->recs.size()) VIOL("read-unreported","%zu of %zu objects were read, then the end of the file was reported, although it had only failed to be read",got,W->recs.size()); sim_state(mixh(got,err)); sim_pass(); }
  bool err; size_t got=readBack(W->path,err,false,false); size_t firstthrow=W->recs.size(); for(size_t i=0;i<W->recs.size();i++) if(W->recs[i].state==3){ firstthrow=i; break; } 
  sim_log("%zu written, %zu durable, %zu read%s%s",W->recs.size(),W->durable,got,err?", error":"",W->threw?", reported":"");
  if(got<W->durable) VIOL("lost-object","%zu objects were written and flushed without an error, %zu can be read",W->durable,got);
  if(!W->threw&&W->closed&&(err||got<W->recs.size())) VIOL("unreported","%zu objects were written and the file was closed without any error, but only %zu can be read",W->recs.size(),got);
  // objects accepted after an error: they are stored behind a damaged place where nobody can read them
  if(W->closed) for(size_t i=firstthrow;i<W->recs.size();i++) if(W->recs[i].state==2) VIOL("accepted-after-error","object %zu could not be written, object %zu was then accepted without an error, but the file cannot be read that far",firstthrow,i);
  sim_state(mixh(got,W->threw)); sim_pass(); }
// ---- 3: event channels over files, and recordings of channels
struct Ev3 { HIID id; u64 seed=0; HIID src; int cat=0; };
static Ev3 event_(u64 seed){ Rng r{seed*77+5}; Ev3 e; e.id=HIID(AtomicID(500))|AtomicID(500+r(6)); if(r(3)==0) e.id.push_back(AtomicID(r(40))); e.seed=r(5)?seed:0; int n=r(3); for(int i=0;i<n;i++) e.src.push_back(AtomicID(900+r(9))); e.cat=r(4)?0:1; return e; }
static string evDesc(const HIID &id,const DMI::BObj *d,const HIID *src){ return id.toString('.')+(src?"@"+src->toString('.'):"")+" "+desc(d); }
static string evDesc(const Ev3 &e,bool src){ ObjRef o; if(e.seed) o=object(e.seed); return evDesc(e.id,e.seed?o.deref_p():0,src?&e.src:0); }
static void producer(){ // writes the events with a file channel, or with a channel that records its output
  if(W->phase==1) sim_disk_arm_crash(pick(1<<(3+pick(14)),"crash_at"));
  try { AppAgent::EventChannel::Ref ch; if(W->mode==0) ch<<=new AppAgent::BOIOChannel; else ch<<=new AppAgent::EventChannel; DMI::Record::Ref rec(DMI::ANONWR); if(W->mode==0){ rec()[AppAgent::AppEvent::FBOIOFileName]=string("events.boio"); rec()[AppAgent::AppEvent::FBOIOFileMode]=string(!W->had&&coin(0.2)?"A":"W"); } else { rec()[AidRecord|AidOutput]=string("events.boio"); if(!W->del_on_abort) rec()[AidDelete|AidOn|AidAbort]=false; }
    ch().init(*rec); W->ready=true; 
    int again=coin(0.3)?1+(int)pick(W->nwrite):-1; // after so many events the channel is initialised anew: to append to its file, or to record from the start
    for(int i=0;i<W->nwrite;i++){ if(i==again&&!W->threw){ if(W->mode==0){ if(coin(0.5)) ch().close("first part"); else if(coin(0.5)){ ch().close(); ch.detach(); ch<<=new AppAgent::BOIOChannel; } rec()[AppAgent::AppEvent::FBOIOFileMode]=string(coin(0.5)?"A":"append"); } sim_log("init() again after %d",i); ch().init(*rec); if(W->mode==1){ NoPreempt np; W->recs.clear(); W->restarted=true; W->total=W->nwrite-again; } }
      Ev3 e=event_(W->seeds[W->recs.size()]); ObjRef o; if(e.seed) o=object(e.seed); { Rec r; r.seed=W->seeds[W->recs.size()]; r.state=1; W->recs.push_back(r); } size_t k=W->recs.size()-1;
      try { ch().postEvent(e.id,o,e.cat?AidError:AidNormal,e.src); W->recs[k].state=2; } catch(std::exception &x){ sim_log("post %zu threw: %s",k,exceptionToString(x).c_str()); W->recs[k].state=3; W->threw=true; if(coin(0.7)) break; } if(coin(0.1)) sim_sleep_ns(MS); }
    if(W->ending==2){ sim_sleep_ns(MS); } else { try { if(W->ending==1) ch().abort("giving up"); else ch().close("done"); W->closed=true; } catch(std::exception &x){ sim_log("end threw: %s",exceptionToString(x).c_str()); W->threw=true; } if(ch().state()!=AppAgent::EventChannel::CLOSED) VIOL("not-closed","the channel is not closed after %s()",W->ending==1?"abort":"close"); }
    W->done=true; if(coin(0.5)) { ch.detach(); } 
  } catch(std::exception &e){ sim_log("producer: %s",exceptionToString(e).c_str()); W->threw=true; W->err=exceptionToString(e); } W->done=true; sim_sleep_ns(3600*SEC); }
static HIID mask_(){ switch(pick(5)){ case 0: return HIID(); case 1: return HIID(AtomicID(500))|DMI::AidWildcard; case 2: return HIID(AtomicID(500))|AtomicID(500+pick(6)); case 3: return HIID(AtomicID(500))|AtomicID(500+pick(6))|DMI::AidWildcard; default: return HIID(AtomicID(500))|DMI::AidAny|DMI::AidWildcard; } }
static void consumer(){ // reads the events with a file channel, and records them
  if(W->phase==2) sim_disk_arm_crash(pick(1<<(3+pick(14)),"crash_at"));
  try { AppAgent::EventChannel::Ref ch(new AppAgent::BOIOChannel,DMI::ANONWR); AppAgent::EventFlag::Ref fl(new AppAgent::EventFlag,DMI::ANONWR); ch().attach(fl()); DMI::Record::Ref rec(DMI::ANONWR); rec()[AppAgent::AppEvent::FBOIOFileName]=string("events.boio"); if(coin(0.5)) rec()[AppAgent::AppEvent::FBOIOFileMode]=string("R"); rec()[AidRecord|AidInput]=string("copy.boio"); if(!W->del_on_abort) rec()[AidDelete|AidOn|AidAbort]=false; ch().init(*rec); W->ready=true;
    int stopat=coin(0.5)?(int)pick(W->recs.size()+1):1<<30; size_t n=0; while((int)n<stopat){ Ev3 e; bool have=n<W->recs.size(); if(have) e=event_(W->recs[n].seed); HIID m=mask_(); HIID id,src; ObjRef o; bool fits=have&&(m.empty()||m.matches(e.id)); 
      if(coin(0.3)){ HIID h; int st=ch().hasEvent(m,h); if(st==AppAgent::AppEvent::CLOSED){ if(have) VIOL("lost-event","the channel ends after %zu of %zu events",n,W->recs.size()); break; } if(st!=(fits?AppAgent::AppEvent::SUCCESS:AppAgent::AppEvent::OUTOFSEQ)) VIOL("wrong-status","hasEvent(%s) returns %d, the next event is %s",m.toString('.').c_str(),st,e.id.toString('.').c_str()); if(h!=e.id) VIOL("wrong-event","hasEvent() tells of event %s, it is %s",h.toString('.').c_str(),e.id.toString('.').c_str()); continue; }
      int st=ch().getEvent(id,o,m,AppAgent::AppEvent::NOWAIT,src); if(st==AppAgent::AppEvent::CLOSED){ if(have) VIOL("lost-event","the channel ends after %zu of %zu events",n,W->recs.size()); break; }
      if(!have) VIOL("extra-event","an event (status %d) after all %zu events have been read",st,W->recs.size());
      if(!fits){ if(st!=AppAgent::AppEvent::OUTOFSEQ) VIOL("wrong-status","getEvent(%s) returns %d, the next event is %s",m.toString('.').c_str(),st,e.id.toString('.').c_str()); continue; }
      if(st!=AppAgent::AppEvent::SUCCESS) VIOL("wrong-status","getEvent(%s) returns %d, the next event is %s",m.toString('.').c_str(),st,e.id.toString('.').c_str());
      string a=evDesc(e,true),b=evDesc(id,o.valid()?o.deref_p():0,&src); if(a!=b) VIOL("wrong-event","event %zu:\n wrote %s\n read  %s",n,shortS(a).c_str(),shortS(b).c_str()); n++; W->acked=n; }
    if(W->ending==1) ch().abort("giving up"); else if(W->ending==0) ch().close("done"); W->closed=true; } catch(std::exception &e){ sim_log("consumer: %s",exceptionToString(e).c_str()); W->threw=true; W->err=exceptionToString(e); } W->done=true; sim_sleep_ns(3600*SEC); }
// what a recording or an event file holds: the number of events, which are the first ones
static size_t recorded(const char *path,bool src,bool &err,int max){ BOIO f; f.open(path,BOIO::READ); size_t n=0; err=false; while(true){ ObjRef o; try { if(!f.readAny(o)) break; } catch(std::exception &e){ err=true; break; } if((int)n>=max) VIOL("extra-event","%s holds more than %d events",path,max); const DMI::Record &r=o.as<DMI::Record>(); ObjRef d; HIID id=r[AidEvent].as<HIID>(), ad=r[AidAddress].as<HIID>(); if(r[AidData].exists()) d=r[AidData].ref(); Ev3 e=event_(W->recs[n].seed); string a=evDesc(e,src), b=evDesc(id,d.valid()?d.deref_p():0,src?&ad:0); if(a!=b) VIOL("wrong-event","event %zu in %s:\n was   %s\n found %s",n,path,shortS(a).c_str(),shortS(b).c_str()); n++; } return n; }
static void scn_record(){ W=new World; W->mode=pick(2,"mode"); int n=1+pick(sim_tier()?50:16); makeSeeds(n); W->nwrite=W->total=n; W->ending=pick(10)<6?0:1+pick(2); W->del_on_abort=coin(0.8); bool crash=coin(0.25), bad=!crash&&coin(0.3); if(crash) W->phase=1; if(coin(0.3)) sim_faults.disk_short=0.2; if(bad){ if(coin(0.5)) sim_faults.disk_quota=pick(1<<(4+pick(12)),"quota"); else sim_faults.disk_write_err=0.02+0.1*pick(4); }
  string old="previous contents"; bool had=W->had=coin(0.4); if(had) sim_disk_put(HOST,"events.boio",old.data(),old.size()); auto isOld=[&](const char *f){ char b[32]; return sim_disk_get(HOST,f,b,32)==(i64)old.size()&&!memcmp(b,old.data(),old.size()); };
  int node=startProc(2); if(!waitFor([node]{ return W->done||!sim_node_alive(node); },60*SEC)) VIOL("stuck","the producer does not end"); bool died=!sim_node_alive(node); sim_calm(); sim_faults.disk_short=0; sim_faults.disk_write_err=0; sim_faults.disk_quota=-1;
  if(!bad&&!died&&W->threw) VIOL("post-error","posting failed on a working disk: %s",W->err.c_str());
  bool fin=sim_disk_exists(HOST,"events.boio"), tmp=sim_disk_exists(HOST,"events.boio.tmp"); bool err=false; size_t got=0; sim_log("%zu posted, ending %d%s%s; file %d tmp %d",W->recs.size(),W->ending,died?" died":"",W->threw?" threw":"",fin,tmp);
  bool atomic=W->mode==1&&W->del_on_abort; bool clean=!died&&W->ending==0&&!W->threw;
  if(atomic){ if(clean){ if(!fin||tmp) VIOL("recording","the recording was ended, but its file has not been put in place"); got=recorded("events.boio",true,err,W->recs.size()); if(err||got!=W->recs.size()) VIOL("lost-event","%zu events were posted, the recording holds %zu%s",W->recs.size(),got,err?" and a damaged one":""); }
    else if(!(died&&W->ending==0)||!fin||(had&&isOld("events.boio"))){ // not ended properly: what was there before stays
      if(had&&!isOld("events.boio")) VIOL("recording","the recording was not completed, but the earlier one has been replaced"); if(!had&&fin) VIOL("recording","the recording was not completed, but is there under its final name");
      if(W->ending==1&&!died&&tmp) VIOL("recording","aborted, but the temporary file was left behind"); if(tmp){ got=recorded("events.boio.tmp",true,err,W->recs.size()); } }
    else { got=recorded("events.boio",true,err,W->recs.size()); if(err||got!=size_t(W->total)) VIOL("lost-event","%d events were posted, the recording holds %zu%s",W->total,got,err?" and a damaged one":""); } }
  else { if(!fin){ if(!died&&!W->threw) VIOL("lost-event","the file is not there"); } else if(!(had&&isOld("events.boio"))){ got=recorded("events.boio",true,err,W->recs.size()); if(clean&&(err||got!=W->recs.size())) VIOL("lost-event","%zu events were posted without an error, the file holds %zu%s",W->recs.size(),got,err?" and a damaged one":""); } else if(clean) VIOL("lost-event","the file was not written"); }
  sim_state(mixh(got,W->ending*2+died));
  if(!clean||coin(0.3)) sim_pass();
  // now read it
  W->done=W->ready=W->closed=false; W->ending=pick(10)<6?0:1+pick(2); crash=coin(0.2); bad=!crash&&coin(0.2); W->phase=crash?2:0; W->del_on_abort=coin(0.8); sim_wild(); if(bad){ int q=pick(3,"bad"); if(q==0) sim_faults.disk_quota=pick(1<<(4+pick(12)),"quota"); else if(q==1) sim_faults.disk_write_err=0.02+0.1*pick(4); else sim_faults.disk_read_err=0.02+0.1*pick(4); } if(coin(0.3)) sim_faults.disk_short=0.2;
  node=startProc(3); if(!waitFor([node]{ return W->done||!sim_node_alive(node); },60*SEC)) VIOL("stuck","the consumer does not end"); died=!sim_node_alive(node); sim_calm(); sim_faults.disk_write_err=0; sim_faults.disk_quota=-1;
  if(!bad&&!died&&W->threw) VIOL("read-error","reading failed on a working disk: %s",W->err.c_str()); fin=sim_disk_exists(HOST,"copy.boio"), tmp=sim_disk_exists(HOST,"copy.boio.tmp"); clean=!died&&!W->threw&&W->ending!=1; sim_log("%zu read, ending %d%s%s; file %d tmp %d",W->acked,W->ending,died?" died":"",W->threw?" threw":"",fin,tmp);
  if(W->ending==2&&W->acked<W->recs.size()) clean=false; // (neither closed nor aborted)
  if(W->del_on_abort){ if(clean&&W->ending==0){ if(!fin||tmp) VIOL("recording","the recording was ended, but its file has not been put in place"); got=recorded("copy.boio",false,err,W->recs.size()); if(err||got!=W->acked) VIOL("lost-event","%zu events were read, the recording holds %zu%s",W->acked,got,err?" and a damaged one":""); } 
    else if(fin){ got=recorded("copy.boio",false,err,W->recs.size()); if(err||got<W->acked) VIOL("recording","the recording was not completed, but is there under its final name"); } if(W->ending==1&&!died&&!W->threw&&tmp) VIOL("recording","aborted, but the temporary file was left behind"); }
  sim_pass(); }
// ---- 4: a queue channel: an application thread, a worker thread, and a remote channel of any behaviour
namespace Q { using namespace AppAgent;
struct Remote; static Remote *R; static const int FID=600;
static HIID evId(int i){ HIID h; h.push_back(AtomicID(FID)); h.push_back(AtomicID(FID+1+i%7)); return h; }
static ObjRef evData(int i){ ObjRef o; if(i%5){ auto *r=new DMI::Record; (*r)[AidIndex]=i; o<<=r; } return o; }
static int evIndex(const ObjRef &o){ if(!o.valid()) return -1; return o.as<DMI::Record>()[AidIndex].as<int>(); }
struct Plan { int init_fail=0; int nin=0; u64 in_gap=0; vector<int> get_err; int close_after_in=-1; vector<int> post_err; int close_after_out=-1; bool end_closes=true; double slow=0; bool close_err=false; bool async=true; };
struct Remote : public EventChannel { // runs in the worker, except for the source of events
  Plan P; int taken=0,gets=0; vector<int> got; vector<int> attempted; int errors=0, closes=0, aborts=0, inits=0; int avail=0; bool source_on=false; int inside=0;
  Remote(){} 
  bool isAsynchronous() const { return true; }
  void in_(){ if(inside++) VIOL("concurrent","two threads use the remote channel at once"); if(coin(P.slow)) sim_sleep_ns(1+pick(20)*MS/4); else sim_yield(); inside--; }
  void fail(const char *what){ errors++; throw std::runtime_error(what); }
  int init(const DMI::Record &rec){ inits++; sim_yield(); if(P.init_fail==1) fail("E init early"); EventChannel::init(rec); if(P.init_fail==2) fail("E init late"); source_on=true; return setState(OPEN); }
  void close(const string &str=""){ if(state()!=CLOSED){ closes++; } sim_yield(); EventChannel::close(str); if(P.close_err){ P.close_err=false; fail("E close"); } }
  void abort(const string &str=""){ if(state()!=CLOSED) aborts++; sim_yield(); setState(CLOSED,str); }
  void selfClose(const char *w){ sim_log("remote closes itself: %s",w); EventChannel::close(w); }
  int getEvent(HIID &id,ObjRef &data,const HIID &mask,int wait,HIID &src){ if(state()==CLOSED) return CLOSED; in_(); int k=gets++; for(int e:P.get_err) if(e==k) fail("E get"); if(P.close_after_in==taken){ selfClose("in"); return CLOSED; }
    if(taken>=P.nin&&P.end_closes){ selfClose("end"); return CLOSED; } 
    if(taken<avail){ id=evId(taken); data=evData(taken); src=HIID(AtomicID(FID+taken%3)); taken++; return AppEvent::SUCCESS; } clearEventFlag(); if(taken<avail) raiseEventFlag(); return AppEvent::WAIT; }
  int hasEvent(const HIID&,HIID&){ return AppEvent::WAIT; }
  void postEvent(const HIID &id,const ObjRef &data,AtomicID cat,const HIID &dest){ in_(); int k=attempted.size(); if(id!=evId(k)||evIndex(data)!=(k%5?k:-1)||dest!=(k%3?HIID(AtomicID(FID+k%3)):HIID())||cat!=(k%4?AidNormal:AidError)) VIOL("wrong-event","event %s %d was posted to the remote channel as number %d",id.toString('.').c_str(),evIndex(data),k); attempted.push_back(k); for(int e:P.post_err) if(e==k) fail("E post"); got.push_back(k); if(P.close_after_out==k){ selfClose("out"); } }
  bool isEventBound(const HIID&,AtomicID){ return true; } 
  void source(){ for(int i=0;i<P.nin;i++){ if(P.in_gap) sim_sleep_ns(1+pick(P.in_gap)); avail++; if(source_on&&P.async) raiseEventFlag(); } if(P.async&&source_on) raiseEventFlag(); }
};
static int cntErrors(std::exception &e){ auto *l=dynamic_cast<DMI::ExceptionList*>(&e); return l?l->size():1; }
}
static void scn_queue(){ using namespace AppAgent; using namespace Q; threadFaults(); int rounds=1+pick(3,"rounds"); 
  static MTQueueChannel *ch; static Remote *rem; ObjRef keep; EventChannel::Ref cref;
  rem=new Remote; EventChannel::Ref remref; if(coin(0.7)){ remref<<=rem; ch=new MTQueueChannel(remref); remref.detach(); } else ch=new MTQueueChannel(rem); 
  cref<<=ch; AppAgent::EventFlag::Ref fl; if(coin(0.5)){ fl<<=new EventFlag; ch->attach(fl()); }
  for(int rd=0;rd<rounds;rd++){ Plan p; p.slow=coin(0.4)?0:pick(10)*0.1; p.nin=coin(0.3)?0:pick(30,"nin"); p.in_gap=coin(0.3)?0:1+pick(20)*MS; p.end_closes=coin(0.5); if(coin(0.1)) p.init_fail=1+pick(2); if(coin(0.25)) for(int i=0,n=1+pick(3);i<n;i++) p.get_err.push_back(pick(40)); if(coin(0.25)) for(int i=0,n=1+pick(3);i<n;i++) p.post_err.push_back(pick(20)); if(coin(0.15)) p.close_after_in=pick(p.nin+1); if(coin(0.15)) p.close_after_out=pick(20); p.close_err=coin(0.1);
    std::sort(p.get_err.begin(),p.get_err.end()); p.get_err.erase(std::unique(p.get_err.begin(),p.get_err.end()),p.get_err.end()); std::sort(p.post_err.begin(),p.post_err.end()); p.post_err.erase(std::unique(p.post_err.begin(),p.post_err.end()),p.post_err.end());
    rem->P=p; rem->taken=rem->gets=rem->errors=rem->closes=rem->aborts=rem->avail=0; rem->got.clear(); rem->attempted.clear(); int inits0=rem->inits;
    int qsize=coin(0.7)?1+pick(4,"qsize"):256; DMI::Record::Ref rec(DMI::ANONWR); rec()[AidMT|AidQueue|AidSize]=qsize; 
    static bool done; done=false; int base=sim_live_fibers(0); static string phase; phase="init"; static int posted,recvd,reported,ending; posted=recvd=reported=0; ending=0; static bool aborted_by_app; aborted_by_app=false;
    int nops=pick(40,"nops"); 
    spawn("app",[=]{ bool closed=false; auto err=[&](std::exception &e){ reported+=cntErrors(e); sim_log("app: %s: %s",phase.c_str(),exceptionToString(e).c_str()); };
      auto bounds=[&](){ if(rem->taken-recvd>qsize) VIOL("queue-bound","%d events are queued for the application, the queue has %d places",rem->taken-recvd,qsize); };
      auto recv=[&](HIID &id,ObjRef &o,HIID &src){ if(recvd>=rem->taken) VIOL("made-up-event","event %s was received, the remote channel gave only %d",id.toString('.').c_str(),rem->taken); if(id!=evId(recvd)||evIndex(o)!=(recvd%5?recvd:-1)||src!=HIID(AtomicID(FID+recvd%3))) VIOL("wrong-event","received event %s %d as number %d",id.toString('.').c_str(),evIndex(o),recvd); recvd++; };
      try { ch->init(*rec); } catch(std::exception &e){ VIOL("exception","init: %s",exceptionToString(e).c_str()); }
      if(ch->state()!=EventChannel::OPEN) VIOL("not-open","state %d after init()",ch->state());
      for(int i=0;i<nops&&!closed;i++){ bounds(); int op=pick(10,"op"); HIID id,src; ObjRef o; try { 
          if(op<4){ int k=posted; phase="postEvent"; HIID dest; if(k%3) dest=HIID(AtomicID(FID+k%3)); posted++; try { ch->postEvent(evId(k),evData(k),k%4?AidNormal:AidError,dest); } catch(...) { posted--; throw; } if(ch->state()==EventChannel::CLOSED){ posted--; closed=true; } }
          else if(op<8){ bool can_wait=!p.end_closes?recvd<p.nin&&p.close_after_in<0:true; if(!can_wait&&(p.init_fail||1)) can_wait=can_wait&&!p.init_fail; if(p.init_fail) can_wait=false; int w=can_wait?(coin(0.3)?AppEvent::NOWAIT:coin(0.5)?AppEvent::WAIT:AppEvent::BLOCK):AppEvent::NOWAIT; HIID m; if(coin(0.2)) m=evId(pick(7)); phase=w==AppEvent::NOWAIT?"getEvent(NOWAIT)":"getEvent(WAIT)"; int st=ch->getEvent(id,o,m,w,src); 
            if(st==AppEvent::SUCCESS){ if(!m.empty()&&!m.matches(id)) VIOL("wrong-event","%s does not match %s",id.toString('.').c_str(),m.toString('.').c_str()); recv(id,o,src); } else if(st==AppEvent::CLOSED) closed=true; else if(st==AppEvent::OUTOFSEQ){ if(m.empty()||m.matches(evId(recvd))) VIOL("wrong-status","OUTOFSEQ for event %d and mask %s",recvd,m.toString('.').c_str()); } else if(st!=AppEvent::WAIT||w!=AppEvent::NOWAIT) VIOL("wrong-status","status %d for wait mode %d",st,w); }
          else if(op==8){ phase="hasEvent"; HIID out; int st=ch->hasEvent(HIID(),out); if(st==AppEvent::SUCCESS){ if(out!=evId(recvd)) VIOL("wrong-event","hasEvent() gives %s instead of %s",out.toString('.').c_str(),evId(recvd).toString('.').c_str()); } else if(st==AppEvent::CLOSED) closed=true; else if(st!=AppEvent::WAIT) VIOL("wrong-status","hasEvent() returns %d",st); }
          else { phase="flush"; ch->flush(); } } catch(std::exception &e){ err(e); closed=ch->state()==EventChannel::CLOSED; }
        if(closed&&ch->state()!=EventChannel::CLOSED) VIOL("not-closed","CLOSED was returned, but the state is %d",ch->state());
        if(coin(0.2)) sim_sleep_ns(pick(30)*MS/2); }
      bool by_remote=closed; if(closed&&coin(0.5)) { HIID a,b; ObjRef o; }
      if(!closed){ ending=1+pick(p.end_closes?3:2); bool drain=ending==3&&!p.init_fail; 
        if(drain){ phase="draining"; while(!closed){ HIID id,src; ObjRef o; try { int st=ch->getEvent(id,o,HIID(),AppEvent::WAIT,src); if(st==AppEvent::SUCCESS) recv(id,o,src); else if(st==AppEvent::CLOSED) closed=true; else VIOL("wrong-status","status %d when waiting",st); } catch(std::exception &e){ err(e); closed=ch->state()==EventChannel::CLOSED; } if(p.init_fail&&!closed) { ending=1; break; } } by_remote=closed; if(closed&&!p.init_fail&&recvd!=rem->taken) VIOL("lost-event","the channel ends after %d events, the remote channel gave %d",recvd,rem->taken); if(closed&&!p.init_fail&&rem->P.close_after_in<0&&p.close_after_out<0&&recvd!=p.nin) VIOL("lost-event","the channel ends after %d events of %d",recvd,p.nin); }
        if(!closed){ aborted_by_app=ending==2; phase=aborted_by_app?"abort":"close"; try { if(aborted_by_app) ch->abort("giving up"); else ch->close("done"); } catch(std::exception &e){ err(e); } } }
      if(ch->state()!=EventChannel::CLOSED) VIOL("not-closed","state %d at the end",ch->state());
      // what has become of it
      if(rem->state()!=EventChannel::CLOSED&&!p.init_fail) VIOL("not-closed","the remote channel is still open"); 
      if(aborted_by_app){ if(rem->closes) VIOL("abort-closes","the channel was aborted, but the remote one has been closed normally"); } else if(rem->aborts) VIOL("close-aborts","the channel was closed, but the remote one has been aborted");
      bool selfclosed=p.close_after_in>=0||p.close_after_out>=0||p.end_closes;
      if(!aborted_by_app&&!by_remote&&!p.init_fail&&!selfclosed&&(int)rem->attempted.size()!=posted) VIOL("lost-event","%d events were posted, the remote channel got %zu before it was closed",posted,rem->attempted.size());
      if((int)rem->attempted.size()>posted) VIOL("made-up-event","%d events were posted, %zu arrived",posted,rem->attempted.size());
      if(reported>rem->errors) VIOL("error-repeated","%d errors of the remote channel, %d were reported",rem->errors,reported); if(reported<rem->errors) VIOL("error-lost","%d errors of the remote channel, %d were reported",rem->errors,reported);
      phase="finished"; done=true; });
    spawn("source",[=]{ waitFor([=]{ return rem->source_on||done; },10*SEC); rem->source(); });
    if(!waitFor([]{ return done; },300*SEC)) VIOL("stuck","the application is stuck in %s (%d posted, %d received)",phase.c_str(),posted,recvd);
    if(!waitFor([base]{ return sim_live_fibers(0)<=base; },60*SEC)) VIOL("thread-leak","%d threads left after the end",sim_live_fibers(0)-base);
    (void)inits0; rem->source_on=false; sim_state(mixh(recvd*64+rem->attempted.size(),ending*8+(p.init_fail?1:0))); }
  if(coin(0.5)) cref.detach(); sim_pass(); }
// ---- a multiplexer of event channels over a dispatcher
namespace M { using namespace AppAgent; using Octopussy::Message; using Octopussy::MsgAddress; 
enum { EV=700, IN=730, OUT=760, PFX=790, OPFX=800 };
struct Msg { int id; HIID mid,ev; int chan=-1; bool data; u64 t; };
static vector<Msg*> msgs; // (with room reserved: no preemption while one is added)
 static int npub=0,ngot=0; static vector<vector<int>> todo; static vector<size_t> next_; static bool over; // over: the multiplexer is being stopped
struct Chan { OctoChannel *ch=0; map<HIID,HIID> in; HIID inpfx; struct Out { HIID id; int scope,pri; }; map<HIID,Out> out; map<int,HIID> catpfx; HIID outpfx; int defscope,defpri; int posted=0; bool done=false; int getting=0; };
static vector<Chan> C; static OctoEventMux *mux; 
struct Sent { HIID id; int chan,seq,scope,pri; bool direct; int seen=0; }; static vector<Sent*> sent; static bool enough=false; static int ndirect=0;
struct Peer : public Octopussy::WorkProcess { HIID sub; bool on=false; Peer(AtomicID c,const HIID &s):WorkProcess(c),sub(s){} void init(){ WorkProcess::init(); subscribe(sub); } bool start(){ WorkProcess::start(); on=true; return false; }
  int receive(Message::Ref &m){ const HIID &id=m->id(); if(!m->payload().valid()) return Message::ACCEPT; const DMI::Record *rp=m->payload().ref_cast<DMI::Record>().deref_p(); int chan=(*rp)[AidChannel].as<int>(),seq=(*rp)[AidIndex].as<int>(); 
    for(size_t i=0,n=sent.size();i<n;i++){ Sent &s=*sent[i]; if(s.chan!=chan||s.seq!=seq) continue; if(s.id!=id) VIOL("wrong-message","event %d of channel %d arrives as message %s instead of %s",seq,chan,id.toString('.').c_str(),s.id.toString('.').c_str()); if(m->priority()!=s.pri) VIOL("wrong-priority","event %d of channel %d (%s) has priority %d instead of %d",seq,chan,id.toString('.').c_str(),m->priority(),s.pri);
      if(m->from()!=mux->address()) VIOL("wrong-message","message from %s",m->from().toString('.').c_str()); const MsgAddress &to=m->to(); if(s.direct!=(to==address())) VIOL("wrong-address","event %d of channel %d was sent to %s",seq,chan,to.toString('.').c_str());
      if(!s.direct){ bool anyhost=to.host()==AidAny, anyproc=to.process()==AidAny; if(anyhost!=(s.scope>=Message::GLOBAL)||anyproc!=(s.scope>=Message::HOST)) VIOL("wrong-scope","event %d of channel %d has scope %d, it was published to %s",seq,chan,s.scope,to.toString('.').c_str()); }
      if(s.seen++) VIOL("duplicate","event %d of channel %d arrived twice",seq,chan); return Message::ACCEPT; }
    VIOL("made-up-event","message %s of channel %d number %d",id.toString('.').c_str(),chan,seq); return Message::ACCEPT; } 
};
static HIID one(int a){ return HIID(AtomicID(a)); } static HIID two(int a,int b){ return AtomicID(a)|AtomicID(b); }
static void genMaps(int i,Chan &c,DMI::Record &rec){ 
  const AtomicID SC[]={AidLocal,AidHost,AidGlobal}; const AtomicID PR[]={AidLowest,AidLower,AidLow,AidNormal,AidHigh,AidHigher}; const int PV[]={Message::PRI_LOWEST,Message::PRI_LOWER,Message::PRI_LOW,Message::PRI_NORMAL,Message::PRI_HIGH,Message::PRI_HIGHER};
  DMI::Record::Ref in(DMI::ANONWR), out(DMI::ANONWR); int n=pick(5); 
  for(int k=0;k<n;k++){ HIID ev=two(EV,EV+1+k); int nm=1+pick(2); vector<HIID> ids; for(int j=0;j<nm;j++){ HIID id=two(IN+i,IN+10+k*2+j); c.in[id]=ev; if(coin(0.2)) id=SC[pick(3)]|id; ids.push_back(id); } if(nm==1) in()[ev]=ids[0]; else in()[ev]=ids; }
  if(coin(0.5)||!n){ c.inpfx=coin(0.7)?two(PFX,PFX+1+i):one(IN+pick(i+1)); in()[FDefaultPrefix]=coin(0.3)?HIID(SC[pick(3)]|c.inpfx):c.inpfx; }
  if(coin(0.3)) in()[FDefaultScope]=string(coin(0.3)?"LOCAL":coin(0.5)?"HOST":"GLOBAL");
  c.defscope=Message::GLOBAL; c.defpri=Message::PRI_NORMAL; if(coin(0.3)){ int s=pick(3); const char *N[]={"LOCAL","HOST","GLOBAL"}; const int V[]={Message::LOCAL,Message::HOST,Message::GLOBAL}; out()[FDefaultScope]=string(N[s]); c.defscope=V[s]; }
  const int SV[]={Message::LOCAL,Message::HOST,Message::GLOBAL}; if(coin(0.3)){ int p=pick(6); out()[FDefaultPriority]=HIID(PR[p]); c.defpri=PV[p]; }
  n=pick(5); for(int k=0;k<n;k++){ HIID key=AtomicID(EventCategories[pick(3)])|two(EV,EV+1+pick(6)); Chan::Out o; o.id=coin(0.15)?HIID():two(OUT,OUT+1+k); o.scope=c.defscope; o.pri=c.defpri; HIID v=o.id; if(!v.empty()){ if(coin(0.4)){ int p=pick(6); v=PR[p]|v; o.pri=PV[p]; } if(coin(0.4)){ int s=pick(3); v=SC[s]|v; o.scope=SV[s]; } } out()[key]=v; c.out[key]=o; }
  for(int k=0;k<2;k++) if(coin(0.2)){ AtomicID cat=EventCategories[1+k]; HIID p=coin(0.2)?HIID():two(OUT,OPFX+1+k); out()[cat|AidPrefix]=p; c.catpfx[cat.id()]=p; }
  if(coin(0.6)){ c.outpfx=two(OUT,OPFX); HIID v=c.outpfx; if(coin(0.3)){ int p=pick(6); v=PR[p]|v; c.defpri=PV[p]; } if(coin(0.3)){ int s=pick(3); v=SC[s]|v; c.defscope=SV[s]; } out()[FDefaultPrefix]=v; }
  rec[FEventMapIn]<<=in; rec[FEventMapOut]<<=out; }
static bool mapOut(Chan &c,const HIID &ev,AtomicID cat,HIID &id,int &scope,int &pri){ scope=c.defscope; pri=c.defpri; auto it=c.out.find(cat|ev); if(it!=c.out.end()){ id=it->second.id; scope=it->second.scope; pri=it->second.pri; return !id.empty(); } auto p=c.catpfx.find(cat.id()); if(p!=c.catpfx.end()){ if(p->second.empty()) return false; id=p->second|ev; return true; } if(c.outpfx.empty()) return false; id=c.outpfx|ev; return true; }
static void mapIn(Msg &m){ for(size_t i=0;i<C.size();i++){ auto it=C[i].in.find(m.mid); if(it!=C[i].in.end()){ m.chan=i; m.ev=it->second; return; } HIID &p=C[i].inpfx; if(p.size()&&m.mid.size()>=p.size()&&m.mid.subId(0,p.size()-1)==p){ m.chan=i; m.ev=m.mid.subId(p.size()); return; } } }
static bool subscribed(const HIID &mid){ for(auto &c:C){ if(c.in.count(mid)) return true; HIID &p=c.inpfx; if(p.size()&&mid.size()>=p.size()&&mid.subId(0,p.size()-1)==p) return true; } return false; }
static void gotEvent(int i,const HIID &id,const ObjRef &o,const HIID &src,Peer *peer){ Chan &c=C[i]; if(next_[i]>=todo[i].size()) VIOL("made-up-event","channel %d gets event %s, nothing is due",i,id.toString('.').c_str()); Msg &m=*msgs[todo[i][next_[i]]]; 
  if(id!=m.ev) VIOL("wrong-event","channel %d gets event %s instead of %s (message %s)",i,id.toString('.').c_str(),m.ev.toString('.').c_str(),m.mid.toString('.').c_str()); if(o.valid()!=m.data) VIOL("wrong-event","event %s of message %d %s data",id.toString('.').c_str(),m.id,m.data?"lost its":"has"); if(m.data&&o.as<DMI::Record>()[AidIndex].as<int>()!=m.id) VIOL("wrong-event","channel %d gets message %d instead of %d",i,o.as<DMI::Record>()[AidIndex].as<int>(),m.id);
  if(src!=peer->address()) VIOL("wrong-event","event from %s",src.toString('.').c_str()); next_[i]++; ngot++; (void)c; }
static void post(int i,Peer *peer){ Chan &c=C[i]; int seq=c.posted++; HIID ev=two(EV,EV+1+pick(6)); AtomicID cat=EventCategories[pick(3)]; DMI::Record::Ref r(DMI::ANONWR); r()[AidChannel]=i; r()[AidIndex]=seq; HIID id; int scope,pri; bool ok=mapOut(c,ev,cat,id,scope,pri); 
  if(c.ch->isEventBound(ev,cat)!=ok) VIOL("wrong-binding","isEventBound(%s) is %d",(cat|ev).toString('.').c_str(),!ok); bool direct=coin(0.3); if(ok){ Sent *s=new Sent{id,i,seq,scope,pri,direct,0}; sent.push_back(s); } 
  ObjRef ref=r; c.ch->postEvent(ev,ref,cat,direct?HIID(peer->address()):HIID()); }
static void step(int i,int wait,Peer *peer,bool single,int &st){ Chan &c=C[i]; HIID id,src; ObjRef o; HIID mask; if(coin(0.15)) mask=two(EV,EV+1+pick(5)); if(wait==AppEvent::BLOCK) mask=HIID();
  // what must be there: everything of this channel that had been sent before this call, if it is at the head of the queue
  if(coin(0.3)){ HIID out; size_t n0=next_[i]; int t0=npub; (void)t0; int r=c.ch->hasEvent(mask,out); if(r==AppEvent::SUCCESS){ if(n0>=todo[i].size()||out!=msgs[todo[i][n0]]->ev) VIOL("wrong-event","hasEvent() gives %s",out.toString('.').c_str()); if(!mask.empty()&&!out.matches(mask)) VIOL("wrong-event","%s does not match",out.toString('.').c_str()); 
      if(single||1){ st=c.ch->getEvent(id,o,mask,AppEvent::NOWAIT,src); if(st==AppEvent::CLOSED){ if(!over) VIOL("closed","the channel is closed before the end"); return; } if(st!=AppEvent::SUCCESS) VIOL("lost-event","channel %d: hasEvent() announced %s, then getEvent() returned %d",i,out.toString('.').c_str(),st); gotEvent(i,id,o,src,peer); } return; } }
  c.getting=1; st=c.ch->getEvent(id,o,mask,wait,src); c.getting=0; 
  if(st==AppEvent::SUCCESS){ if(!mask.empty()&&!id.matches(mask)) VIOL("wrong-event","%s does not match %s",id.toString('.').c_str(),mask.toString('.').c_str()); gotEvent(i,id,o,src,peer); }
  else if(st==AppEvent::CLOSED){ if(!over) VIOL("closed","the channel is closed before the end"); }
  else if(wait==AppEvent::BLOCK) VIOL("wrong-status","getEvent(BLOCK) returns %d",st);
  else if(st==AppEvent::WAIT&&wait!=AppEvent::NOWAIT) VIOL("wrong-status","getEvent(WAIT) returns WAIT"); else if(st!=AppEvent::WAIT&&st!=AppEvent::OUTOFSEQ) VIOL("wrong-status","status %d",st); }
}
static void scn_mux(){ using namespace M; threadFaults(); { static const char *argv[]={"sim",0}; Octopussy::OctopussyConfig::initGlobal(1,argv); Debug::setLevel("",0); Octopussy::WPInterface::setLogLevel(-1); } 
  auto *dsp=new Octopussy::Dispatcher(AtomicID(10),AtomicID(20)); mux=new OctoEventMux(AtomicID(30)); OctoEventMux::Ref muxref(mux,DMI::ANONWR); int nch=1+pick(4,"nch"); C.resize(nch); todo.resize(nch); next_.resize(nch); msgs.reserve(1000); sent.reserve(100000); for(auto &t:todo) t.reserve(1000); 
  for(auto &c:C) c.ch=&mux->newChannel(); Peer *peer=new Peer(AtomicID(40),AtomicID(OUT)|AidWildcard);
  dsp->attach(muxref); Peer *p2=peer; dsp->attach(p2,DMI::ANON); bool early=coin(0.5); vector<DMI::Record::Ref> recs; for(int i=0;i<nch;i++){ recs.push_back(DMI::Record::Ref(DMI::ANONWR)); genMaps(i,C[i],recs[i]()); } 
  auto initAll=[&]{ for(int i=0;i<nch;i++) if(C[i].ch->init(*recs[i])!=EventChannel::OPEN) VIOL("not-open","state %d",C[i].ch->state()); };
  if(early) initAll(); dsp->startThread(true); if(!waitFor([&]{ return peer->on&&mux->isRunning(); },30*SEC)) VIOL("start-stuck","the work processes were not started"); if(!early) initAll();
  bool blocking=nch>1?coin(0.4):coin(0.3); int nmsg=1+pick(30,"nmsg"); static bool sending; sending=true; static int nfin; nfin=0;
  spawn("sender",[=]{ for(int k=0;k<nmsg&&!enough;k++){ Msg m; m.id=msgs.size(); int c=pick(nch); if(coin(0.15)) m.mid=two(EV,EV); else if(C[c].in.size()&&coin(0.7)){ auto it=C[c].in.begin(); std::advance(it,pick(C[c].in.size())); m.mid=it->first; } else if(C[c].inpfx.size()) m.mid=C[c].inpfx|two(EV,EV+1+pick(4)); else m.mid=two(IN+c,IN+99); 
      m.data=coin(0.7); mapIn(m); bool pub=coin(0.5); if(pub&&!subscribed(m.mid)) m.chan=-1; Message::Ref ref; ref<<=new Message(m.mid,Message::PRI_NORMAL); if(m.data){ DMI::Record::Ref r(DMI::ANONWR); r()[AidIndex]=m.id; ref().payload()<<=r; } Msg *mp=new Msg(m); msgs.push_back(mp); if(m.chan>=0) todo[m.chan].push_back(m.id); npub++; if(pub) peer->publish(ref,0,Message::GLOBAL); else peer->send(ref,mux->address()); if(coin(0.3)) sim_sleep_ns(pick(20)*MS); } sending=false; });
  auto all=[=]{ if(sending) return false; for(int i=0;i<nch;i++) if(next_[i]<todo[i].size()) return false; return true; };
  bool cut=coin(0.2); // stop it in the middle
  if(blocking) for(int i=0;i<nch;i++) spawn("channel",[=]{ for(;;){ int st=0; step(i,AppEvent::BLOCK,peer,nch==1,st); if(st==AppEvent::CLOSED) break; if(coin(0.2)) post(i,peer); if(coin(0.2)) sim_sleep_ns(pick(10)*MS); } nfin++; });
  else spawn("app",[=]{ int quiet=0; for(;;){ int i=pick(nch); int st=0; if(coin(0.2)) post(i,peer); bool w=nch==1?coin(0.5):false; // with several channels wait for all of them, as an application does
        if(nch>1&&quiet>3*nch){ bool any=false; for(int k=0;k<nch&&!any;k++){ HIID id,src; ObjRef o; st=C[k].ch->getEvent(id,o,HIID(),k==i?AppEvent::WAIT:AppEvent::NOWAIT,src); if(st==AppEvent::SUCCESS){ gotEvent(k,id,o,src,peer); any=true; } else if(st==AppEvent::CLOSED) any=true; } quiet=0; if(st==AppEvent::CLOSED) break; continue; }
        step(i,w?AppEvent::WAIT:AppEvent::NOWAIT,peer,true,st); if(st==AppEvent::CLOSED) break; if(st==AppEvent::SUCCESS) quiet=0; else { quiet++; if(coin(0.3)) sim_sleep_ns(MS); } } nfin++; });
  if(cut) sim_sleep_ns(pick(200)*MS); else if(!waitFor(all,120*SEC)){ string s; for(int i=0;i<nch;i++) s+=Debug::ssprintf(" %d: %zu of %zu",i,next_[i],todo[i].size()); VIOL("stuck","120 s after the last message some events were not picked up:%s%s",s.c_str(),blocking?" (one thread per channel)":""); }
  if(!cut&&!waitFor([]{ for(size_t i=0;i<sent.size();i++) if(!sent[i]->seen) return false; return true; },30*SEC)) for(size_t i=0;i<sent.size();i++) if(!sent[i]->seen) VIOL("lost-event","event %d of channel %d, posted as %s, did not arrive",sent[i]->seq,sent[i]->chan,sent[i]->id.toString('.').c_str());
  if(!cut) sim_sleep_ns(pick(50)*MS); enough=true; if(!waitFor([]{ return !sending; },60*SEC)) VIOL("stuck","the sender is stuck"); over=true; static bool stopped; stopped=false; int base=0; (void)base; spawn("stop",[=]{ if(coin(0.5)) dsp->stop(); else { dsp->detach(mux,true); sim_sleep_ns(10*MS); dsp->stop(); } stopped=true; });
  int want=blocking?nch:1; if(!waitFor([=]{ return nfin==want; },60*SEC)) VIOL("stop-stuck","%d of %d threads did not notice the end of the channel",want-nfin,want); if(!waitFor([]{ return stopped; },60*SEC)) VIOL("stop-stuck","the dispatcher does not stop");
  for(int i=0;i<nch;i++) sim_state(mixh(mixh(nch,i),todo[i].size()*64+next_[i])); muxref.detach(); sim_pass(); }
extern "C" void node_main(int role,void *shared){
  if(role){ W=(World*)shared; switch(role){ case 1: writer(); break; case 2: producer(); break; case 3: consumer(); break; } return; }
  try { switch((int)sim_param("scn",1)){ case 1: scn_crash(); break; case 2: scn_diskerr(); break; case 3: scn_record(); break; case 4: scn_queue(); break; case 5: scn_mux(); break; } } catch(std::exception &e){ VIOL("exception","%s",exceptionToString(e).c_str()); } }
