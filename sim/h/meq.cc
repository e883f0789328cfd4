// Harness for the evaluation engine: Forest, Node, NodeNursery, MTPool (real code) with test nodes whose values follow a reference model.
#include "common.h"
#include <MEQ/Forest.h>
#include <MEQ/Node.h>
#include <MEQ/MTPool.h>
#include <MEQ/Request.h>
#include <MEQ/Result.h>
#include <MEQ/Cells.h>
#include <MEQ/Domain.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/Exception.h>
#include <DMI/List.h>
#include <DMI/Vec.h>
#include <unistd.h>
#include <time.h>
using namespace Meq; using std::string; using std::vector;
#define VIOL(cls,...) sim_violation(cls,__VA_ARGS__)
static const int SD[5]={0x02,0x04,0x08,0x10,0x20}; // iteration, state, resolution, domain, dataset
enum { OKAY=1,FAILED=2,MISSED=4 };
struct Spec { vector<int> ch,step; vector<int> order; int deps=0; int tag=0; int failmask=0,missmask=0; bool throws=false; int slow=0; AtomicID fp,mp; int cache=0; bool mt=true; bool enabled=true; int rounds=0; /* >0: polls its children one by one, that many times */ bool midfail=false; };
struct Node0 { int running=0; u64 execs=0; u64 calls=0; };
static vector<Spec> S; static vector<Node0> R; static Forest *F; static bool track_reentry=true; static int nthreads=1; static u64 started_total=0; static bool abort_raised=false; static u64 started_at_abort=0;
static u64 mix64(u64 a,u64 b){ return mixh(a*0x9e3779b97f4a7c15ull+1,b); }
static int sub(const HIID &id,int bit){ int i=0; while((1<<i)<bit) i++; return i<int(id.size())?id[i].id():0; }
static bool trig(int mask,const HIID &id){ return mask && ((mask>>(sub(id,0x10)&7))&1); }   // fails/misses in these domains
static u64 own(const Spec &s,const HIID &id){ u64 h=s.tag+17; for(int d:SD) if(s.deps&d) h=mix64(h,sub(id,d)*131+d); return h; }
static u64 comb(u64 h,u64 c){ return mix64(h*31+7,c); }
static double enc(u64 h){ return (double)(h>>12); }
class SimNode: public Node { public: SimNode():Node(-1,0,0){ disableAutoResample(); } int ix(){ return nodeIndex(); }
  virtual TypeId objectType() const { return TpMeqNode; }
  virtual void setStateImpl(DMI::Record::Ref &rec,bool init){ Node::setStateImpl(rec,init); vector<HIID> d; Spec &s=S[ix()]; if(s.deps&2) d.push_back(FIteration); if(s.deps&4) d.push_back(FState); if(s.deps&8) d.push_back(FResolution); if(s.deps&16) d.push_back(FDomain); if(s.deps&32) d.push_back(FDataset); if(init) setActiveSymDeps(d); int t; if(rec[HIID("Sim.Tag")].get(t,false)) s.tag=t; }
  virtual int getResult(Result::Ref &ref,const vector<Result::Ref> &ch,const Request &req,bool){ int i=ix(); Spec &s=S[i]; Node0 &r=R[i];
    if(r.running++) VIOL("reentered","node %d is evaluated by two threads at once",i); r.execs++; started_total++;
    sim_state(mix64(mix64(i,r.execs),sim_self()));
    if(s.slow){ if(s.slow==1) sim_yield(); else sim_sleep_ns((u64)s.slow*100000); }
    HIID id=req.id(); u64 h=own(s,id);
    if(int(ch.size())!=int(s.ch.size())) VIOL("child-count","node %d gets %zu child results, has %zu children",i,ch.size(),s.ch.size());
    for(size_t k=0;k<ch.size();k++){ u64 v=0; if(!S[s.ch[k]].enabled){} else if(!ch[k].valid()){ r.running--; NodeThrow(FailWithoutCleanup,"no child result"); } else { const Result &cr=*ch[k]; if(cr.numVellSets()==0) v=4; else { const VellSet &vs=cr.vellSet(0); if(vs.isFail()) v=5; else if(!vs.hasValue()) v=6; else v=(u64)vs.getValue().as<double>()<<12; } } h=comb(h,v>>12?v>>12:v); }
    int rc=0;
    if(trig(s.failmask,id)){ r.running--; if(s.throws) { NodeThrow(FailWithoutCleanup,"simfail "+std::to_string(i)); } (ref <<= new Result(1)).setNewVellSet(0).addFail(MakeNodeException("simfail "+std::to_string(i))); return RES_FAIL; }
    if(trig(s.missmask,id)){ ref <<= new Result(1); ref().setVellSet(0,new VellSet); rc=RES_MISSING; r.running--; return rc; }
    { VellSet &vs=(ref <<= new Result(1)).setNewVellSet(0,req.evalMode()>0?1:0,req.evalMode()>0?1:0); vs.setValue(new Vells(enc(h),false)); if(req.evalMode()>0){ vector<int> sp(1,7); vs.setSpids(sp); vs.setPerturbation(0,1e-3); vs.setPerturbedValue(0,new Vells(enc(h)+1,false)); } }
    r.running--; return 0; }
};
static void checkOut(int i,int rc,const Result::Ref &ref,const HIID &id,const char *when,bool abort_ok=false);
// a node that takes its children's results one by one, like the solver
class SimAsync: public SimNode { public:
  virtual int pollChildren(Result::Ref &resref,vector<Result::Ref> &childres,const Request &req0){ int i=ix(); Spec &s=S[i]; if(!s.rounds) return Node::pollChildren(resref,childres,req0);
    setExecState(CS_ES_POLLING); timers().children.start(); childres.assign(s.ch.size(),Result::Ref()); Request::Ref reqref(req0,DMI::SHARED); int code=0;
    for(int round=s.rounds-1;round>=0;round--){ HIID id=req0.id(); if(round){ id[1]=id[1].id()+100*round; reqref <<= new Request(req0); reqref().setId(id); } else reqref=Request::Ref(req0,DMI::SHARED); const Request &req=*reqref;
      int n=children().startAsyncPoll(req,currentRequestDepth()+1), got=0, rc=0, c; if(!round) code=0; if(n!=int(s.ch.size())) VIOL("async-poll","node %d: startAsyncPoll() says %d children, has %zu",i,n,s.ch.size()); std::set<int> seen; Result::Ref res;
      while((c=children().awaitChildResult(rc,res,req))>=0){ if(!seen.insert(c).second) VIOL("async-poll","node %d: child %d returned twice",i,c); if(c>=int(s.ch.size())) VIOL("async-poll","node %d: child number %d",i,c);
        if(!abort_raised||!(rc&RES_ABORT)) checkOut(s.ch[c],rc,res,id,"child result of an async poll",abort_raised); if(rc&RES_ABORT){ res.detach(); continue; } if(!res.valid()) VIOL("async-poll","node %d: no result from child %d",i,c); childres[c].xfer(res); got++; code|=rc;
        if(s.midfail&&trig(s.failmask,req0.id())&&(int)seen.size()>(int)(s.ch.size()/2)){ if(coin(0.5)) children().abortPoll(); timers().children.stop(); NodeThrow(FailWithoutCleanup,"simfail "+std::to_string(i)); } }
      if(forest().abortFlag()){ timers().children.stop(); return RES_ABORT; }
      if(got!=n) VIOL("async-poll","node %d: %d of %d children returned a result",i,got,n); if(children().asyncPollInProgress()) VIOL("async-poll","node %d: poll still in progress after the last result",i); }
    stepchildren().backgroundPoll(req0,currentRequestDepth()+1); timers().children.stop(); return code&~(RES_FAIL|RES_MISSING); }
};
static DMI::BObj *mkAsync(int){ return new SimAsync; }
static DMI::BObj *mkSim(int){ return new SimNode; }
// ---- reference model: what a request may yield. One value if OK is possible and unambiguous.
struct Out { bool fm=false; /* FAIL may come with the MISSING bit */ int can=0; std::set<u64> val; bool any=false; std::set<int> fails; int must=0; /* mask */ };
static std::map<int,Out> memo;
static const Out &model(int i,const HIID &id){ auto it=memo.find(i); if(it!=memo.end()) return it->second; Spec &s=S[i]; Out o;
  bool canfail=false,mustfail=false,canmiss=false,mustmiss=false; bool abandonF=s.fp==AidAbandonPropagate, abandonM=s.mp==AidAbandonPropagate; (void)abandonF;(void)abandonM;
  std::set<u64> hs; hs.insert(own(s,id)); bool any=false;
  for(int c:s.ch){ if(!S[c].enabled){ std::set<u64> n; for(u64 h:hs) n.insert(comb(h,0)); hs=n; continue; } const Out &x=model(c,id); std::set<u64> vs;
    if(x.can&OKAY){ if(x.any) any=true; for(u64 v:x.val) vs.insert(v); }
    if(x.can&FAILED){ if(x.fm&&s.mp!=AidIgnore){ o.fm=true; if(s.fp==AidIgnore) canmiss=true; } if(s.fp==AidIgnore) vs.insert(5); else { canfail=true; o.fails.insert(x.fails.begin(),x.fails.end()); if(x.can==FAILED) mustfail=true; } }
    if(x.can&MISSED){ if(s.mp==AidIgnore) vs.insert(6); else { canmiss=true; if(x.can==MISSED) mustmiss=true; } }
    std::set<u64> n; for(u64 h:hs) for(u64 v:vs){ n.insert(comb(h,v)); if(n.size()>64){ any=true; break; } } if(!n.empty()) hs=n; }
  // with an "abandon" policy the poll may end before every child has answered
  bool ab=abandonF||abandonM;
  if(canmiss) o.fm=true; if(canfail) o.can|=FAILED; if(canmiss&&(!mustfail||ab)) o.can|=MISSED;
  if(!mustfail&&!mustmiss){ if(trig(s.failmask,id)){ o.can|=FAILED; o.fails.insert(i); } else if(trig(s.missmask,id)) o.can|=MISSED; else { o.can|=OKAY; o.any=any; for(u64 h:hs) o.val.insert((u64)enc(h)); } }
  return memo[i]=o; }
static string describe(const Out &o){ string x; if(o.can&OKAY){ x+="OK"; if(!o.any) for(u64 v:o.val) x+=" "+std::to_string(v); } if(o.can&FAILED){ x+=" FAIL{"; for(int f:o.fails) x+=std::to_string(f)+" "; x+="}"; } if(o.can&MISSED) x+=" MISSING"; return x; }
static string treeStr(){ string x; for(size_t i=1;i<S.size();i++){ Spec &s=S[i]; x+="  "+std::to_string(i)+(s.mt?"":"(serial)")+": "; for(int c:s.ch) x+=std::to_string(c)+" "; if(!s.step.empty()){ x+="| "; for(int c:s.step) x+=std::to_string(c)+" "; } x+=" fp="+s.fp.toString()+" mp="+s.mp.toString()+" deps="+std::to_string(s.deps)+" f="+std::to_string(s.failmask)+" m="+std::to_string(s.missmask)+" cache="+std::to_string(s.cache)+"\n"; } return x; }
static void checkOut(int i,int rc,const Result::Ref &ref,const HIID &id,const char *when,bool abort_ok){ memo.clear(); const Out o=model(i,id); string what; bool ok=true;
  if(rc&NodeFace::RES_ABORT){ what="ABORT"; ok=abort_ok; }
  else if(rc&NodeFace::RES_WAIT){ what="WAIT"; ok=false; }
  else if(rc&NodeFace::RES_FAIL){ what="FAIL{"; ok=o.can&FAILED; int nf=0; if(ref.valid()) for(int k=0;k<ref->numVellSets();k++){ const VellSet &vs=ref->vellSet(k); if(vs.isFail()) for(int q=0;q<vs.numFails();q++){ string m=vs.getFailMessage(q); nf++; size_t p=m.find("simfail "); what+=m.substr(0,60)+";"; if(p==string::npos){ if(m.find("exception in execute()")==string::npos) ok=false; nf--; } else { int n=atoi(m.c_str()+p+8); if(!o.fails.count(n)) ok=false; } } else { what+="non-fail vellset;"; ok=false; } } what+="}"; if(!nf) ok=false; }
  else if(rc&NodeFace::RES_MISSING){ what="MISSING"; ok=o.can&MISSED; }
  else if(!ref.valid()||ref->numVellSets()!=1||ref->vellSet(0).isFail()||!ref->vellSet(0).hasValue()){ what="OK but without a value"; ok=false; }
  else { u64 v=(u64)ref->vellSet(0).getValue().as<double>(); what="OK "+std::to_string(v); ok=(o.can&OKAY)&&(o.any||o.val.count(v)); const VellSet &vs=ref->vellSet(0); int want=id[0].id()==RequestType::EVAL_SINGLE?1:0; if(ok){ if(vs.numPertSets()!=want){ ok=false; what+=" with "+std::to_string(vs.numPertSets())+" sets of derivatives"; } else if(want&&(vs.numSpids()!=1||vs.getPerturbedValue(0).as<double>()!=(double)v+1)){ ok=false; what+=" with wrong derivatives"; } } }
  if(!ok) VIOL("wrong-result","%s: node %d, request %s gives %s (code %x); should be %s\n%s",when,i,id.toString('.').c_str(),what.c_str(),rc,describe(o).c_str(),treeStr().c_str()); }
// ---- forest
static void mkForest(int n,bool fails,bool caches){ S.assign(n+1,Spec()); R.assign(n+1,Node0()); int shape=pick(4,"shape");
  for(int i=1;i<=n;i++){ Spec &s=S[i]; s.tag=i*1000; int room=n-i; s.deps=coin(0.5)?0:SD[pick(5)]|(coin(0.3)?SD[pick(5)]:0); s.slow=coin(0.3)?0:coin(0.5)?1:1+pick(30);
    s.mt=coin(0.85); s.fp=s.mp=AidCollectPropagate; if(fails){ const AtomicID P[]={AidCollectPropagate,AidAbandonPropagate,AidIgnore}; s.fp=P[pick(3)]; s.mp=P[pick(3)]; if(coin(0.3)){ s.failmask=coin(0.5)?255:1<<pick(4); s.throws=coin(0.5); s.deps|=0x10; } else if(coin(0.15)){ s.missmask=coin(0.5)?255:1<<pick(4); s.deps|=0x10; } }
    if(caches){ const int C[]={0,Node::CACHE_NEVER,Node::CACHE_MINIMAL,Node::CACHE_SMART,Node::CACHE_SMART_AGR,Node::CACHE_ALWAYS}; s.cache=coin(0.5)?0:C[pick(6)]; } else s.cache=0; }
  for(int i=1;i<=n;i++) if(coin(0.15)){ Spec &s=S[i]; s.rounds=1+pick(2); s.fp=s.mp=AidIgnore; s.midfail=coin(0.5); }
  for(int i=2;i<=n;i++){ // every node hangs below one with a smaller number; some below several
    int p=shape==0?1+pick(i-1):shape==1?std::max(1,i-1-(int)pick(3)):shape==2?1+pick(std::min(i-1,3)):1+(i-2)/2; (coin(0.08)?S[p].step:S[p].ch).push_back(i); int extra=coin(0.3)?1+pick(2):0; while(extra--){ int q=1+pick(i-1); bool dup=false; for(int c:S[q].ch) if(c==i) dup=true; for(int c:S[q].step) if(c==i) dup=true; if(!dup) (coin(0.1)?S[q].step:S[q].ch).push_back(i); } }
  for(int i=1;i<=n;i++){ Spec &s=S[i]; if(s.ch.size()>1&&coin(0.3)) for(size_t k=0;k<s.ch.size();k++) std::swap(s.ch[k],s.ch[k+pick(s.ch.size()-k)]); } }
static DMI::Vec *ivec(const vector<int> &v){ DMI::Vec *x=new DMI::Vec(Tpint,v.size()); for(size_t k=0;k<v.size();k++) (*x)[k]=v[k]; return x; }
static void build(){ F=new Forest; int n=S.size()-1; vector<vector<int>> par(n+1); for(int i=1;i<=n;i++){ for(int c:S[i].ch) par[c].push_back(i); for(int c:S[i].step) par[c].push_back(i); }
  for(int i=1;i<=n;i++){ DMI::Record::Ref rec(DMI::ANONWR); DMI::Record &r=rec(); r[FClass]=S[i].rounds?"SimAsync":"SimNode"; r[FName]="n"+std::to_string(i); r[FNodeIndex]=i; if(!S[i].ch.empty()) r[FChildren]<<=ivec(S[i].ch); if(!S[i].step.empty()) r[FStepChildren]<<=ivec(S[i].step); if(!par[i].empty()) r[FParents]<<=ivec(par[i]); r[FMTPolling]=S[i].mt; r[FFailPolicy]=HIID(S[i].fp); r[FMissingDataPolicy]=HIID(S[i].mp); r[FCachePolicy]=S[i].cache; if(S[i].ch.size()>1&&coin(0.2)){ vector<string> o; vector<int> c=S[i].ch; for(size_t k=0;k<c.size();k++) std::swap(c[k],c[k+pick(c.size()-k)]); size_t m=1+pick(c.size()); for(size_t k=0;k<m;k++) o.push_back("n"+std::to_string(c[k])); r[FChildPollOrder]=o; } int ni=i; F->create(ni,rec); if(ni!=i) VIOL("index","node created with index %d, asked for %d",ni,i); }
  F->initAll(); if(F->numInitErrors()) VIOL("init","%d init errors",F->numInitErrors()); }
static Request::Ref mkReq(const HIID &id,const HIID &next){ Domain::Ref d(new Domain(0,1,0,1),DMI::ANON); Cells::Ref c(new Cells(*d,2,2),DMI::ANON); Request::Ref r(new Request(*c,id),DMI::ANON); if(!next.empty()) r().setNextId(next); return r; }
static HIID randId(HIID id,bool first){ if(first){ id=HIID(); id.resize(6); id[0]=RequestType::EVAL; for(int k=1;k<6;k++) id[k]=0; } else { if(coin(0.3)) id[0]=coin(0.5)?RequestType::EVAL:RequestType::EVAL_SINGLE; int k=1+pick(5); if(coin(0.8)) id[k]=k==4?(int)pick(4):(int)id[k].id()+1; if(coin(0.2)){ k=1+pick(5); id[k]=k==4?(int)pick(4):(int)id[k].id()+1; } } return id; }
static void startPool(){ nthreads=1+pick(sim_tier()?5:4,"threads"); if(sim_param("threads",0)) nthreads=(int)sim_param("threads",0); if(nthreads>1){ int w=coin(0.5)?nthreads*2-1:(int)pick(nthreads*2); MTPool::start(w,nthreads); MTPool::brigade().join(MTPool::BUSY,0); } }
static bool stopping=false;
static void stopPool(){ if(nthreads>1) MTPool::stop(); if(sim_live_fibers(0)>0) { if(!waitFor([]{ return sim_live_fibers(0)==0; },5*SEC)) VIOL("thread-leak","%d threads run after the pool was stopped",sim_live_fibers(0)); } }
static void idleCheck(const char *when){ for(size_t i=1;i<S.size();i++){ if(R[i].running) VIOL("still-running","%s: node %zu is still being evaluated",when,i); Node &nd=dynamic_cast<Node&>(F->get(i)); if(nd.isExecuting()) VIOL("still-running","%s: node %zu is still marked as executing",when,i); } }
static int run1(int i,const Request &req,Result::Ref &ref){ return F->get(i).execute(ref,req,0); }
// ---- 1: histories of requests, policies, faults in nodes, state changes
static void scn_eval(bool fails,bool caches){ int n=1+pick(sim_tier()?22:13,"nodes"); startPool(); mkForest(n,fails,caches); build(); const int C[]={Node::CACHE_NEVER,Node::CACHE_MINIMAL,Node::CACHE_SMART,Node::CACHE_SMART_AGR,Node::CACHE_ALWAYS}; if(caches) F->setCachePolicy(C[pick(5)]); else F->setCachePolicy(Node::CACHE_NEVER);
  threadFaults(); int nreq=1+pick(sim_tier()?10:6,"nreq"); HIID id,next; id=randId(id,true); 
  // number of evaluations of every node when nothing is cached: one per path from the root
  vector<u64> paths; if(!fails&&!caches){ paths.assign(n+1,0); }
  for(int k=0;k<nreq;k++){ next=randId(id,false); HIID hint=coin(0.5)?next:coin(0.5)?randId(id,false):HIID(); Request::Ref req=mkReq(id,hint); Result::Ref ref; int root=coin(0.85)?1:1+pick(n); for(auto &r:R) r.execs=0; 
    int rc=run1(root,*req,ref); sim_log("request %s on %d: code %x",id.toString('.').c_str(),root,rc); checkOut(root,rc,ref,id,"execute"); idleCheck("after execute()");
    if(!caches&&!fails){ vector<u64> p(n+1,0); p[root]=1; for(int i=root;i<=n;i++) if(p[i]){ for(int c:S[i].ch) p[c]+=p[i]*std::max(1,S[i].rounds); for(int c:S[i].step) p[c]+=p[i]; } for(int i=1;i<=n;i++) if(p[i]!=R[i].execs) VIOL("poll-count","request %s: node %d evaluated %llu times, polled by its parents %llu times\n%s",id.toString('.').c_str(),i,(unsigned long long)R[i].execs,(unsigned long long)p[i],treeStr().c_str()); }
    // in between: state changes, cache clears
    bool statechg=false; while(coin(0.3,"chg")){ int i=1+pick(n); switch(pick(3)){ case 0: { DMI::Record::Ref rec(DMI::ANONWR); int t=S[i].tag+1; rec()[HIID("Sim.Tag")]=t; F->get(i).setState(rec); S[i].tag=t; statechg=true; break; } case 1: { Node &nd=dynamic_cast<Node&>(F->get(i)); nd.clearCache(coin(0.5),coin(0.5)?0:k+1); break; } case 2: { DMI::Record::Ref st; dynamic_cast<Node&>(F->get(i)).getSyncState(st); break; } } }
    id=next; if(statechg) id[2]=id[2].id()+1; if(!caches) {} }
  stopPool(); sim_pass(); }
// ---- 4: evaluations aborted at arbitrary points, each followed by further evaluations
static bool exec_on=false;
static void scn_abort(){ int n=2+pick(sim_tier()?18:11,"nodes"); bool fails=coin(0.4), caches=coin(0.6); startPool(); mkForest(n,fails,caches); build(); const int C[]={Node::CACHE_NEVER,Node::CACHE_MINIMAL,Node::CACHE_SMART,Node::CACHE_SMART_AGR,Node::CACHE_ALWAYS}; F->setCachePolicy(caches?C[pick(5)]:Node::CACHE_NEVER);
  threadFaults(); int nreq=2+pick(sim_tier()?10:7,"nreq"); HIID id=randId(HIID(),true); int done_ab=0;
  for(int k=0;k<nreq;k++){ HIID next=randId(id,false); Request::Ref req=mkReq(id,coin(0.5)?next:HIID()); Result::Ref ref; bool ab=k<nreq-1&&coin(0.6); exec_on=true; int root=coin(0.9)?1:1+pick(n);
    static int gen=0; int g=++gen; 
    if(ab){ u64 delay=pick(4)==0?0:(u64)pick(1+pick(400))*(pick(2)?1000:20000); int yields=pick(60); spawn("aborter",[=]{ for(int y=0;y<yields;y++) sim_yield(); if(delay) sim_sleep_ns(delay); if(g!=gen||!exec_on) return; F->raiseAbortFlag(); abort_raised=true; started_at_abort=started_total; sim_log("abort flag raised"); }); }
    int live=sim_live_fibers(0); (void)live;
    int rc=run1(root,*req,ref); exec_on=false; sim_log("request %s on %d: code %x%s",id.toString('.').c_str(),root,rc,abort_raised?" (aborted)":""); checkOut(root,rc,ref,id,"execute",abort_raised); idleCheck("after an aborted execute()");
    if(abort_raised){ done_ab++; u64 late=started_total-started_at_abort; int thr=sim_live_fibers(0)+1; if(late>(u64)thr) VIOL("abort-ignored","%llu evaluations were started after the abort flag was raised, by %d threads",(unsigned long long)late,thr); if(rc&NodeFace::RES_ABORT&&rc&NodeFace::RES_WAIT) VIOL("abort-code","code %x",rc); }
    F->clearAbortFlag(); abort_raised=false; if(coin(0.3)) sim_sleep_ns(pick(3000)*1000ull);
    if(!ab||coin(0.6)) id=next; }
  sim_state(mix64(done_ab,n)); stopPool(); sim_pass(); }
extern "C" void node_main(int,void*){ AtomicID::registerId(-20001,"SimNode"); AtomicID::registerId(-20002,"Sim"); AtomicID::registerId(-20003,"Tag"); AtomicID::registerId(-20004,"SimAsync"); DMI::DynamicTypeManager::addToRegistry(TypeId("SimNode"),&mkSim); DMI::DynamicTypeManager::addToRegistry(TypeId("SimAsync"),&mkAsync);
  try { switch((int)sim_param("scn",1)){ case 1: scn_eval(false,false); case 2: scn_eval(false,true); case 3: scn_eval(true,true); case 4: scn_abort(); } } catch(std::exception &e){ VIOL("exception","%s",exceptionToString(e).c_str()); } }
