// Local dispatcher harness: messaging, priorities, timers, inputs, signals, life cycle.
#include "common.h"
#include <OCTOPUSSY/Octopussy.h>
#include <OCTOPUSSY/Dispatcher.h>
#include <OCTOPUSSY/WorkProcess.h>
#include <OCTOPUSSY/OctopussyConfig.h>
#include <DMI/Record.h>
#include <DMI/NumArray.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
using namespace Octopussy; using namespace DMI; using namespace std;
#define VIOL(cls,...) sim_violation(cls,__VA_ARGS__)

//---------------------------------------------------------------- message ledger
enum Beh { B_ACCEPT=0,B_HOLD,B_REQUEUE,B_MODIFY,B_XFER };
struct MsgRec { int id; int pri; u64 inv=0,ret=0; int fc=0; set<int> must,may; map<int,int> got; int beh=B_ACCEPT; string text; vector<int> data; bool xfered=false; int ndeliver=-1; };
static vector<MsgRec*> msgs;
struct Deliv { int msg; u64 t0,t1; int result; int thread; };
class TWP;
static vector<TWP*> wpl;
static bool quiet=false;   // ledger closed
static const AtomicID ClsA(1001),ClsB(1002);
static const char *behn[]={"accept","hold","requeue","modify","xfer"};

class TWP : public WorkProcess {
 public:
  int idx; int nworkers; vector<Deliv> hist; map<int,int> seen; int inside=0; int max_inside=0; set<int> threads; bool autoc;
  int inits=0,starts=0,stops=0; u64 t_start=0,t_stop=0; bool dyn=false; vector<HIID> subs; int hello_self=0;
  map<int,int> requeued; map<int,u64> reqat; int lastfc=0; int reacts=0; bool do_log=false;
  std::function<void(TWP*)> on_start;
  TWP(AtomicID c,int i,int nw,bool ac):WorkProcess(c),idx(i),nworkers(nw),autoc(ac){ setAutoCatch(ac); }
  virtual void init(){ WorkProcess::init(); inits++; for(auto &s:subs) subscribe(s); }
  bool in_start=false;
  virtual bool start(){ WorkProcess::start(); in_start=true; starts++; t_start=sim_seq(); for(int i=0;i<nworkers;i++) createWorker(); if(on_start) on_start(this); in_start=false; return false; }
  virtual void stop(){ stops++; t_stop=sim_seq(); WorkProcess::stop(); if(inside) VIOL("stop-while-running","WP %d: stop() called while a callback of it is running",idx); }
  virtual int receive(Message::Ref &mref){
    u64 t0=sim_seq(); if(stops) VIOL("callback-after-stop","WP %d received a message after its stop()",idx); if(!starts||in_start) VIOL("callback-before-start","WP %d received a message before start() was complete",idx);
    inside++; max_inside=max(max_inside,inside); threads.insert(sim_self());
    if(inside>max(1,nworkers)) VIOL("reentered","WP %d: %d concurrent receive() calls with %d workers",idx,inside,nworkers);
    int r=Message::ACCEPT;
    if(mref->id().size()==2 && mref->id()[0]==AtomicID(500)) r=ledger(mref,t0);
    else if(mref->id()==HIID(AtomicID(502))) flood();
    inside--; return r; }
  int ledger(Message::Ref &mref,u64 t0); void flood();
};
static TWP *flooder=0; static int floodpri=0,floodmax=0,floods=0; static bool floodstop=false;
static Message::Ref makeMsg(MsgRec *m){
  Message::Ref ref; DMI::Record &rec=Message::withRecord(ref,AtomicID(500)|AtomicID(m->id));
  ref().setPriority(m->pri); rec[AidText]=m->text; rec[AtomicID(501)]=m->data; rec[AidIndex]=m->id; return ref; }
static void checkContent(MsgRec *m,const Message &msg,int wp){
  string t=msg[AidText].as<string>(); vector<int> d=msg[AtomicID(501)].as_vector<int>(); int k=msg[AidIndex].as<int>();
  if(t!=m->text||d!=m->data||k!=m->id) VIOL("content-changed","message %d arrived at WP %d with changed content (text '%s' expected '%s', %zu/%zu elements)",m->id,wp,t.c_str(),m->text.c_str(),d.size(),m->data.size());
  if(msg.priority()!=m->pri) VIOL("content-changed","message %d priority changed",m->id); }
int TWP::ledger(Message::Ref &mref,u64 t0){
  int id=mref->id()[1].index(); MsgRec *m=msgs[id];
  checkContent(m,*mref,idx);
  bool again=requeued.count(id)&&requeued[id]>0;
  if(!m->may.count(idx)) VIOL("misdelivered","message %d (pri %d) delivered to WP %d to which it was not addressed",id,m->pri,idx);
  seen[id]++; 
  if(seen[id]>1&&!again) VIOL("duplicate","message %d (%s) delivered %d times to WP %d",id,behn[m->beh],seen[id],idx);
  if(again) requeued[id]--;
  // order: anything of higher priority (or equal priority and sent earlier) that was queued before the previous delivery ended must be gone
  if(nworkers<=1){ u64 tprev=hist.empty()?0:hist.back().t1; 
    for(auto o:msgs) if(o!=m&&o->must.count(idx)&&!seen.count(o->id)&&o->ret){
      if(o->pri>m->pri&&o->ret<tprev) VIOL("priority-order","WP %d got message %d (pri %d) while message %d (pri %d) was already queued",idx,id,m->pri,o->id,o->pri);
      if(o->pri==m->pri&&o->ret<m->inv&&!again&&seen[id]==1) VIOL("fifo-order","WP %d got message %d before message %d of the same priority which was sent earlier",idx,id,o->id); } }
  Deliv d{id,t0,0,0,sim_self()}; int r=Message::ACCEPT;
  if(seen[id]==1) switch(m->beh){
    case B_HOLD: r=Message::HOLD; requeued[id]++; sim_probe("hold"); break;
    case B_REQUEUE: r=Message::REQUEUE; requeued[id]++; reqat[id]=sim_seq(); sim_probe("requeue"); break;
    case B_MODIFY: { Message &w=mref; w[AidText]="modified"; w.setState(77); sim_probe("modify"); } break;
    case B_XFER: { Message::Ref stolen=mref; sim_probe("xfer"); (void)stolen; } break;
    default: break; }
  if(coin(0.1,"dwell")) sim_sleep_ns(pick(3000)*1000);
  d.t1=sim_seq(); d.result=r; hist.push_back(d); m->got[idx]++; lastfc=floods;
  sim_state(mixh(mixh(idx,queue().size()),mixh(m->pri,r)));
  return r; }

// may message m to WP w have to wait behind a message that w holds or has requeued?
static bool behindOther(MsgRec *m,TWP *w){ for(auto o:msgs){ auto r=w->requeued.find(o->id); if(r==w->requeued.end()||r->second<=0) continue;
    if(o->beh!=B_REQUEUE) return true; // held: everything waits
    if(o->pri>m->pri||(o->pri==m->pri&&m->ret>w->reqat[o->id])) return true; } return false; }
// a work process that keeps the dispatcher busy with messages to itself must not starve the others: the age of a queue counts like priority
void TWP::flood(){ floods++; 
  for(auto w:wpl) if(w!=this&&!w->nworkers){ int last=w->lastfc; bool pend=false; for(auto m:msgs) if(m->ret&&m->must.count(w->idx)&&!w->seen.count(m->id)&&!behindOther(m,w)){ pend=true; last=max(last,m->fc); }
      for(auto m:msgs) if(m->inv&&!m->ret) pend=false; // being sent
      if(pend&&floods-last>floodpri+40) VIOL("starved","WP %d has had a message waiting while %d messages of priority %d were delivered to another work process",w->idx,floods-last,floodpri); }
  if(floods<floodmax&&!floodstop){ Message::Ref ref; ref<<=new Message(HIID(AtomicID(502))); ref().setPriority(floodpri); send(ref,address()); } else flooder=0; }

static Dispatcher *dsp=0; static int poll_fiber=-1; static bool poll_done=false;
static void initOcto(){ static const char *argv[]={"sim",0}; OctopussyConfig::initGlobal(1,argv); Debug::setLevel("",0); WPInterface::setLogLevel(-1); }
static void sendOne(TWP *from,MsgRec *m,int kind,TWP *to,const HIID &unused){
  Message::Ref ref=makeMsg(m); int n=0; m->inv=sim_seq();
  if(kind==0) n=from->send(ref,to->address());
  else if(kind==1) n=from->publish(ref,0,pick(2)?Message::GLOBAL:Message::LOCAL);
  else if(kind==2) n=from->send(ref,MsgAddress(to->address().wpclass(),AidAny,AidLocal,AidLocal));
  else n=from->send(ref,MsgAddress(AidAny,AidAny,AidLocal,AidLocal));
  m->fc=floods; m->ret=sim_seq(); m->ndeliver=n;
  if(n<(int)m->must.size()||n>(int)m->may.size()) VIOL("bad-count","message %d: send reported %d deliveries, expected %zu..%zu",m->id,n,m->must.size(),m->may.size());
  if(coin(0.3)){ // the sender's copy stays intact and private
    if(ref.valid()) checkContent(m,*ref,-1); } }
static MsgRec *newMsg(int beh){ MsgRec *m=new MsgRec; m->id=msgs.size(); const int P[]={Message::PRI_NORMAL,Message::PRI_LOW,Message::PRI_HIGH,Message::PRI_HIGHER,0}; m->pri=P[pick(5)]; m->beh=beh; m->text="t"+to_string(pick(1000)); int n=pick(6); for(int i=0;i<=n;i++) m->data.push_back(m->id*100+i); msgs.push_back(m); return m; }

static bool stop_called=false;    // stop() has been called
static bool start_ret=false;   // start() has returned
static void startDsp(int mode){
  if(mode==0){ dsp->startThread(true); start_ret=true; }
  else { poll_fiber=spawn("poll",[]{ dsp->start(); start_ret=true; poll_done=false; try { dsp->pollLoop(); } catch(std::exception &e){ if(!stop_called) throw; } /* entered after stop(): "not running" */ poll_done=true; }); } }
static bool allStarted(){ for(auto w:wpl) if(!w->starts) return false; return true; }

static void scn_local(){
  int nwp=2+pick(4), nsend=1+pick(3); bool useHold=coin(0.3),useReq=coin(0.3);
  for(int i=0;i<nwp;i++){ int nw=coin(0.45)?1+pick(3):0; bool ac=coin(0.3); TWP *w=new TWP(coin(0.5)?ClsA:ClsB,i,nw,ac);
    int k=pick(4); if(k==1) w->subs.push_back(AtomicID(500)|AidWildcard); else if(k==2) w->subs.push_back(HIID(AidWildcard)); 
    wpl.push_back(w); }
  dsp=new Dispatcher(AtomicID(10),AtomicID(20)); 
  for(auto w:wpl) dsp->attach(w,DMI::ANON);
  startDsp(pick(2)); if(!waitFor(allStarted,30*SEC)) VIOL("start-stuck","work processes were not started within 30 s");
  if(!waitFor([]{ return dsp->numWPs()>0; },SEC)) {}
  sim_sleep_ns(pick(3)*MS);
  if(coin(0.12,"flood")) for(auto w:wpl) if(!w->nworkers&&!flooder){ flooder=w; floodpri=16+16*pick(5); floodmax=floodpri*3+200; sim_probe("flood"); Message::Ref ref; ref<<=new Message(HIID(AtomicID(502))); ref().setPriority(floodpri); w->send(ref,w->address()); }
  vector<int> fib; int *left=new int(nsend);
  for(int s=0;s<nsend;s++){ int n=1+pick(sim_tier()?14:8); TWP *from=wpl[pick(nwp)];
    fib.push_back(spawn("sender",[=]{ for(int k=0;k<n;k++){ 
      int kind=pick(4); TWP *to=wpl[pick(wpl.size())]; int beh=B_ACCEPT; u64 b=pick(8); if(b==1&&useHold) beh=B_HOLD; else if(b==2&&useReq) beh=B_REQUEUE; else if(b==3) beh=B_MODIFY; else if(b==4) beh=B_XFER;
      MsgRec *m=newMsg(beh);
      for(auto w:wpl){ bool t=false; if(kind==0) t=w==to; else if(kind==1) t=!w->subs.empty(); else if(kind==2) t=w->address().wpclass()==to->address().wpclass(); else t=true; if(t){ m->must.insert(w->idx); m->may.insert(w->idx); } }
      sendOne(from,m,kind,to,HIID()); if(coin(0.3)) sim_sleep_ns(pick(2000)*1000); }
      --*left; })); }
  if(!waitFor([=]{ return *left==0; },200*SEC)) VIOL("send-stuck","a send() did not return within 200 s of simulated time");
  // flush message of the highest priority to release held/requeued messages; they may need one per held message
  auto done=[]{ for(auto m:msgs) for(int w:m->must){ auto it=wpl[w]->seen.find(m->id); int need=(m->beh==B_HOLD||m->beh==B_REQUEUE)?2:1; if(it==wpl[w]->seen.end()||it->second<need) return false; } return true; };
  auto done1=[]{ for(auto m:msgs) for(int w:m->must) if(!wpl[w]->seen.count(m->id)&&!behindOther(m,wpl[w])) return false; return true; };
  if(flooder){ waitFor([]{ return !flooder; },600*SEC); if(flooder) floodstop=true; }
  sim_calm();
  if(!waitFor(done1,20*SEC)){ string s; for(auto m:msgs) for(int w:m->must) if(!wpl[w]->seen.count(m->id)){ s+=" msg "+to_string(m->id)+"->wp"+to_string(w)+(wpl[w]->nworkers?"(threaded)":"(polled)"); } VIOL("lost-delivery","messages not delivered within 20 s after the last send although nothing else happens:%s",s.c_str()); }
  for(int round=0;!done()&&round<60;round++){ for(auto w:wpl){ MsgRec *m=newMsg(B_ACCEPT); m->pri=Message::PRI_EVENT+1; m->must.insert(w->idx); m->may.insert(w->idx); sendOne(wpl[0],m,0,w,HIID()); }
    waitFor(done,2*SEC); }
  if(!done()){ string s; for(auto m:msgs) for(int w:m->must){ int need=(m->beh==B_HOLD||m->beh==B_REQUEUE)?2:1; int g=wpl[w]->seen.count(m->id)?wpl[w]->seen[m->id]:0; if(g<need) s+=" msg "+to_string(m->id)+"("+behn[m->beh]+")->wp"+to_string(w)+(wpl[w]->nworkers?"(threaded)":"(polled)"); } VIOL("lost-held","held or requeued messages were not delivered again:%s",s.c_str()); }
  // settle: no late duplicates
  sim_sleep_ns(50*MS);
  for(auto m:msgs) for(auto &g:m->got){ int need=(m->beh==B_HOLD||m->beh==B_REQUEUE)?2:1; if(g.second!=need) VIOL("duplicate","message %d delivered %d times to WP %d",m->id,g.second,g.first); }
  for(auto w:wpl) if(!w->queue().empty()){ // only non-ledger messages may remain
      VIOL("queue-not-empty","WP %d still has %zu messages queued at the end",w->idx,w->queue().size()); }
  // orderly stop
  stop_called=true; int st=spawn("stopper",[]{ dsp->stop(); }); 
  if(!waitFor([=]{ return sim_fiber_blocked(st)==2; },60*SEC)) VIOL("stop-stuck","stop() did not return within 60 s of simulated time");
  for(auto w:wpl) if(w->inits!=1||w->starts!=1||w->stops!=1) VIOL("life-cycle","WP %d: init %d, start %d, stop %d calls",w->idx,w->inits,w->starts,w->stops);
  for(auto w:wpl) if(!w->nworkers&&w->threads.size()>1) VIOL("wrong-thread","WP %d without workers was served by %zu threads",w->idx,w->threads.size());
  sim_pass(); }


//---------------------------------------------------------------- timers
#include <sys/time.h>
static i64 wallns(){ struct timeval tv; gettimeofday(&tv,0); return (i64)tv.tv_sec*1000000000ll+tv.tv_usec*1000ll; }
struct Tmr { int wp; int id; i64 period; bool oneshot; i64 t_inv=0,t_ret=0; vector<i64> fired; i64 t_rem_inv=0,t_rem_ret=0; int cancel_after=0; bool cancelled=false; bool removed_self=false; bool rem_sent=false; };
static vector<Tmr*> tmrs; static i64 jumps_back=0,jumps_fwd=0; static i64 lateSlack=3000000000ll; static bool stopping=false,calm_now=false;
class TimWP : public WorkProcess { public: int idx; int nw; bool started_=false; vector<Tmr*> initial; 
  TimWP(int i,int n):WorkProcess(AtomicID(1003)),idx(i),nw(n){}
  void add(Tmr *t){ t->t_inv=wallns(); addTimeout(Timestamp(t->period/1000000000,t->period%1000000000/1000),AtomicID(700)|AtomicID(t->id),t->oneshot?EV_ONESHOT:0); t->t_ret=wallns(); }
  virtual bool start(){ for(int i=0;i<nw;i++) createWorker(); for(auto t:initial) add(t); started_=true; return false; }
  virtual int receive(Message::Ref &mref){ if(mref->id().size()==2&&mref->id()[0]==AtomicID(701)){ Tmr *t=tmrs[mref->id()[1].index()]; if(t->t_inv==0) add(t); else { t->t_rem_inv=wallns(); bool r=removeTimeout(AtomicID(700)|AtomicID(t->id)); t->t_rem_ret=r?wallns():0; if(!nw&&r) t->removed_self=true; if(!r&&!t->oneshot&&!t->cancelled) VIOL("remove-failed","removeTimeout() of the active periodic timer %d found nothing",t->id); } } return Message::ACCEPT; }
  virtual int timeout(const HIID &id){ if(id.size()!=2||id[0]!=AtomicID(700)) VIOL("bad-timeout-id","timeout() called with unexpected id %s",id.toString('.').c_str()); Tmr *t=tmrs[id[1].index()]; i64 now=wallns();
    if(t->wp!=idx) VIOL("timer-misdelivered","timer %d of WP %d fired at WP %d",t->id,t->wp,idx);
    if(t->removed_self) VIOL("timer-after-remove","timer %d fired after its WP removed it",t->id);
    if(t->t_rem_ret&&nw&&now-t->t_rem_ret>lateSlack*3) VIOL("timer-after-remove","timer %d fired %.3f s after it was removed",t->id,(now-t->t_rem_ret)*1e-9);
    if(t->cancelled&&(!nw||now-t->fired.back()>lateSlack*3)) VIOL("timer-after-cancel","timer %d fired again after its handler returned CANCEL",t->id);
    t->fired.push_back(now); i64 k=t->fired.size();
    if(t->oneshot&&k>1) VIOL("oneshot-repeated","one-shot timer %d fired %lld times",t->id,(long long)k);
    i64 due=t->t_inv+k*t->period; if(now+jumps_back+2000<due-jumps_fwd*0) { if(now+jumps_back+jumps_fwd+2000<due) VIOL("timer-early","timer %d (period %.6f s) fired %lld times within %.6f s",t->id,t->period*1e-9,(long long)k,(now-t->t_inv)*1e-9); }
    sim_state(mixh(mixh(t->oneshot,min<i64>(k,20)),t->period/10000000));
    if(!calm_now&&coin(0.05)) sim_sleep_ns(pick(100)*MS);
    if(t->cancel_after&&k>=t->cancel_after){ t->cancelled=true; sim_probe("timer_cancel"); return Message::CANCEL; }
    return Message::ACCEPT; } };
static void scn_timers(){
  vector<TimWP*> w; int nwp=1+pick(3); dsp=new Dispatcher(AtomicID(10),AtomicID(20));
  auto mk=[&](int wp){ Tmr *t=new Tmr; t->wp=wp; t->id=tmrs.size(); t->period=(1+pick(400))*MS; if(coin(0.2)) t->period+=pick(3)*SEC; if(coin(0.1)) t->period=1000*(1+pick(100)); t->oneshot=coin(0.4); if(t->period<1000000) t->oneshot=true; if(!t->oneshot&&coin(0.3)) t->cancel_after=1+pick(4); tmrs.push_back(t); return t; };
  for(int i=0;i<nwp;i++){ TimWP *x=new TimWP(i,coin(0.4)?1:0); w.push_back(x); int n=pick(3); for(int k=0;k<n;k++) x->initial.push_back(mk(i)); }
  TWP *src=new TWP(ClsA,0,0,false); wpl.push_back(src); dsp->attach(src,DMI::ANON); for(auto x:w) dsp->attach(x,DMI::ANON);
  startDsp(pick(2)); auto up=[&]{ for(auto x:w) if(!x->started_) return false; return src->starts>0; }; function<bool()> upf=up; if(!waitFor(upf,30*SEC)) VIOL("start-stuck","not started");
  sim_sleep_ns(pick(20)*MS);
  int nops=pick(8); bool jumps=coin(0.25)&&!sim_param("nofault",0);
  for(int k=0;k<nops;k++){ u64 r=pick(4);
    if(r<=1){ Tmr *t=mk(pick(nwp)); if(coin(0.5)){ Message::Ref m(new Message(AtomicID(701)|AtomicID(t->id)),DMI::ANONWR); src->send(m,w[t->wp]->address()); } else w[t->wp]->add(t); }
    else if(r==2&&!tmrs.empty()){ Tmr *t=tmrs[pick(tmrs.size())]; if(t->t_ret&&!t->rem_sent){ t->rem_sent=true; Message::Ref m(new Message(AtomicID(701)|AtomicID(t->id)),DMI::ANONWR); src->send(m,w[t->wp]->address()); } }
    else if(jumps&&wallns()>0){ i64 j=(i64)(pick(2000))*MS-1000*(i64)MS; if(j<0) jumps_back+=-j; else jumps_fwd+=j; sim_clock_jump(j); }
    sim_sleep_ns(pick(600)*MS/(1+pick(30))); }
  sim_sleep_ns(pick(3)*SEC);
  sim_calm(); calm_now=true; i64 T0=wallns(); i64 maxp=0; for(auto t:tmrs) maxp=max(maxp,t->period); u64 quietTime=(u64)maxp+jumps_back+lateSlack; sim_sleep_ns(quietTime); i64 T1=wallns();
  for(auto t:tmrs){ if(!t->t_ret){ VIOL("lost-delivery","the request to add timer %d was not delivered",t->id); }
    bool active=!t->t_rem_inv&&!t->cancelled&&!t->cancel_after; 
    if(t->oneshot&&t->fired.empty()&&!t->t_rem_inv) VIOL("timer-lost","one-shot timer %d (period %.3f s) armed at %.3f has not fired by %.3f",t->id,t->period*1e-9,(t->t_ret-T0)*1e-9,(T1-T0)*1e-9);
    if(!t->oneshot&&active){ int n=0; for(auto f:t->fired) if(f>=T0) n++; if(!n) VIOL("timer-lost","periodic timer %d (period %.3f s) armed at %.3f did not fire between 0 and %.3f (fired %zu times in all)",t->id,t->period*1e-9,(t->t_ret-T0)*1e-9,(T1-T0)*1e-9,t->fired.size());
      // rate: in a calm system a periodic timer keeps its period
      if(!jumps&&t->t_ret<T0-1000000000ll){ i64 expect=(T1-T0)/t->period; if(n+2+expect/5<expect) VIOL("timer-slow","periodic timer %d (period %.3f s) fired only %d times in %.3f s without load",t->id,t->period*1e-9,n,(T1-T0)*1e-9); } }
    if(!t->oneshot&&t->cancel_after&&!t->t_rem_inv&&(int)t->fired.size()<t->cancel_after&&(T1-T0)/t->period>t->cancel_after+3&&!jumps) VIOL("timer-lost","timer %d fired %zu times, its handler cancels it after %d",t->id,t->fired.size(),t->cancel_after); }
  stop_called=true; int st=spawn("stopper",[]{ dsp->stop(); }); if(!waitFor([=]{ return sim_fiber_blocked(st)==2; },60*SEC)) VIOL("stop-stuck","stop() did not return within 60 s of simulated time");
  sim_pass(); }
//---------------------------------------------------------------- inputs and signals
class InpWP : public WorkProcess { public: int idx; int nw; bool started_=false; struct Ch { int fd,wfd; string got; u64 sent=0; int flags; bool removed=false; bool added=false; int events=0; bool oneshot=false; int rd; u64 t_removed=0; int wwant=0,wevents=0; bool wcancel=false,wgone=false,wever=false; }; map<int,Ch*> ch; vector<Ch*> pend; map<int,int> sigs; map<int,int> sigflags; int inside=0;
  InpWP(int i,int n):WorkProcess(AtomicID(1004)),idx(i),nw(n){}
  virtual bool start(){ for(int i=0;i<nw;i++) createWorker(); for(auto c:pend) watch(c); for(auto &s:sigflags) addSignal(s.first,s.second); started_=true; return false; }
  virtual int input(int fd,int flags){ auto it=ch.find(fd); if(it==ch.end()) VIOL("bad-input-fd","input() for descriptor %d which WP %d does not watch",fd,idx); Ch *c=it->second; c->events++;
    if(inside++&&nw<2) VIOL("reentered","input() re-entered");
    if(flags&~(c->flags|(c->wever?EV_FDWRITE:0))) VIOL("bad-input-flags","input() reports flags %x, only %x are watched",flags,c->flags);
    bool wc=false; if(flags&EV_FDWRITE){ if(c->wgone&&!nw) VIOL("input-after-remove","input() reports writability of descriptor %d after that watch was removed",fd); c->wevents++; if(c->wevents>=c->wwant&&!c->wgone){ c->wgone=true; sim_probe("write_watch_done"); if(c->wcancel&&!(flags&EV_FDREAD)) wc=true; else removeInput(fd,EV_FDWRITE); } }
    if(c->removed&&!nw) VIOL("input-after-remove","input() for descriptor %d after it was removed",fd);
    if(c->oneshot&&c->events>1) VIOL("oneshot-repeated","one-shot input fired %d times",c->events);
    if(flags&EV_FDREAD){ char b[64]; int n=recv(fd,b,c->rd,MSG_DONTWAIT); if(n>0) c->got.append(b,n); else sim_probe("input_spurious"); }
    inside--; return wc?Message::CANCEL:Message::ACCEPT; }
  void watch(Ch *c){ // the watched conditions may be given at once or one after the other
    if(!c->wwant) addInput(c->fd,c->flags); else switch(pick(3)){ case 0: addInput(c->fd,c->flags|EV_FDWRITE); break; case 1: addInput(c->fd,c->flags); addInput(c->fd,EV_FDWRITE); break; case 2: addInput(c->fd,EV_FDWRITE); addInput(c->fd,c->flags); break; } c->added=true; }
  virtual int signal(int s){ if(!sigflags.count(s)) VIOL("bad-signal","signal() %d for WP %d not registered for it",s,idx); if(sigflags[s]&EV_IGNORE) VIOL("ignored-signal","signal() called although registered with EV_IGNORE"); sigs[s]++; return Message::ACCEPT; } };
static void orig_handler(int){}
static void scn_inputs(){
  for(int s:{SIGUSR2,SIGALRM,SIGURG,SIGINT,SIGUSR1}) signal(s,orig_handler);
  int nwp=1+pick(2); vector<InpWP*> w; dsp=new Dispatcher(AtomicID(10),AtomicID(20)); vector<pair<InpWP*,InpWP::Ch*>> all;
  const int SG[]={SIGUSR2,SIGALRM,SIGURG}; map<int,int> raised; 
  for(int i=0;i<nwp;i++){ InpWP *x=new InpWP(i,coin(0.4)?1:0); w.push_back(x); int n=1+pick(3); for(int k=0;k<n;k++){ int f[2]; socketpair(AF_UNIX,SOCK_STREAM,0,f); auto *c=new InpWP::Ch; c->fd=f[0]; c->wfd=f[1]; c->flags=EV_FDREAD; c->rd=1+pick(20); if(coin(0.3)){ c->wever=true; c->wwant=1+pick(3); c->wcancel=coin(0.5); } x->ch[c->fd]=c; all.push_back({x,c}); if(coin(0.6)) x->pend.push_back(c); }
    for(int s:SG) if(coin(0.4)){ x->sigflags[s]=coin(0.3)?EV_DISCRETE:coin(0.1)?EV_IGNORE:0; } }
  for(auto x:w) dsp->attach(x,DMI::ANON);
  startDsp(pick(2)); function<bool()> up=[&]{ for(auto x:w) if(!x->started_) return false; return true; }; if(!waitFor(up,30*SEC)) VIOL("start-stuck","not started"); sim_sleep_ns((1+pick(5))*MS);
  map<int,vector<int>> base; int nops=4+pick(20);
  for(int k=0;k<nops;k++){ u64 r=pick(8);
    if(r<5){ auto &pc=all[pick(all.size())]; InpWP *x=pc.first; auto *c=pc.second; if(!c->added) x->watch(c); string d; int n=1+pick(40); for(int j=0;j<n;j++) d+=(char)('a'+(c->sent+j)%26); c->sent+=n; ::send(c->wfd,d.data(),d.size(),0); }
    else if(r==5){ int s=SG[pick(3)]; bool any=false; for(auto x:w) any|=x->sigflags.count(s); if(any){ raised[s]++; sim_node_signal(0,s); } }
    else if(r==6){ auto &pc=all[pick(all.size())]; if(pc.second->added&&!pc.second->removed&&coin(0.3)){ bool ok=pc.first->removeInput(pc.second->fd); pc.second->removed=pc.first->nw==0?false:true; pc.second->t_removed=sim_now_ns(); pc.second->removed=true; if(pc.first->nw==0){ /* a delivery may be in progress in the poll thread */ } if(!ok) VIOL("remove-failed","removeInput() found nothing"); pc.second->added=false; pc.first->ch[pc.second->fd]->removed=false; pc.second->oneshot=false; pc.second->rd=1+pick(20); pc.second->removed=false; pc.second->added=false; pc.second->wwant=0; pc.second->wgone=false; sim_probe("input_removed"); } }
    sim_sleep_ns(pick(200)*MS/(1+pick(50))); }
  sim_calm();
  // a last signal of each registered kind: must be delivered after it was raised
  map<pair<int,int>,int> before; for(int s:SG){ bool any=false; for(auto x:w) if(x->sigflags.count(s)){ before[{x->idx,s}]=x->sigs[s]; any=true; } (void)any; }
  function<bool()> drained=[&]{ for(auto &pc:all) if(pc.second->added&&pc.second->got.size()<pc.second->sent) return false; return true; };
  { function<bool()> wdone=[&]{ for(auto &pc:all) if(pc.second->added&&pc.second->wevents<pc.second->wwant) return false; return true; }; if(!waitFor(wdone,30*SEC)) VIOL("input-lost","writability of a watched descriptor is not reported for 30 s although nothing else happens"); }
  if(!waitFor(drained,30*SEC)){ string s; for(auto &pc:all) if(pc.second->added&&pc.second->got.size()<pc.second->sent) s+=" fd "+to_string(pc.second->fd)+" "+to_string(pc.second->got.size())+"/"+to_string(pc.second->sent)+(pc.first->nw?" (threaded)":" (polled)"); VIOL("input-lost","readable descriptors are not reported for 30 s although nothing else happens:%s",s.c_str()); }
  for(auto &pc:all){ auto *c=pc.second; for(size_t i=0;i<c->got.size();i++) if(c->got[i]!=(char)('a'+i%26)) VIOL("input-order","byte %zu of descriptor %d wrong",i,c->fd); }
  sim_sleep_ns(200*MS); for(auto x:w) for(auto &s:x->sigflags){ before[{x->idx,s.first}]=x->sigs[s.first]; if(x->sigs[s.first]>raised[s.first]) VIOL("signal-extra","signal %d raised %d times but delivered %d times to WP %d",s.first,raised[s.first],x->sigs[s.first],x->idx); if(raised[s.first]&&!(s.second&EV_IGNORE)&&!x->sigs[s.first]) VIOL("signal-lost","signal %d raised %d times, never delivered to WP %d",s.first,raised[s.first],x->idx);
    if(dsp->signalCounter(s.first)>raised[s.first]) VIOL("signal-count","signal counter %d > raised %d",dsp->signalCounter(s.first),raised[s.first]); }
  set<int> again; for(auto x:w) for(auto &s:x->sigflags) again.insert(s.first);
  for(int s:again) sim_node_signal(0,s);
  function<bool()> sgot=[&]{ for(auto x:w) for(auto &s:x->sigflags) if(!(s.second&EV_IGNORE)&&x->sigs[s.first]<=before[{x->idx,s.first}]) return false; return true; };
  if(!waitFor(sgot,10*SEC)) VIOL("signal-lost","a signal raised in an idle system was not delivered within 10 s");
  // removal: nothing further is reported
  for(auto &pc:all) if(pc.second->added&&coin(0.5)){ pc.first->removeInput(pc.second->fd); sim_sleep_ns(10*MS); int ev=pc.second->events; ::send(pc.second->wfd,"zzz",3,0); sim_sleep_ns(300*MS); if(pc.second->events!=ev) VIOL("input-after-remove","input() called for descriptor %d after removeInput()",pc.second->fd); }
  stop_called=true; int st=spawn("stopper",[]{ dsp->stop(); }); if(!waitFor([=]{ return sim_fiber_blocked(st)==2; },60*SEC)) VIOL("stop-stuck","stop() did not return within 60 s of simulated time");
  for(int g:{SIGUSR2,SIGALRM,SIGURG}){ struct sigaction sa; sigaction(g,0,&sa); if(sa.sa_handler!=orig_handler) VIOL("handler-not-restored","after stop() the handler of signal %d is not the one the process had before",g); }
  sim_pass(); }
//---------------------------------------------------------------- life cycle
class LWP : public WorkProcess { public: int idx; int nw; int st=0; int inits=0,starts=0,stops=0; int inside=0; int rcv=0; bool detach_on_msg=false; bool detach_req=false; static int alive; static map<int,int> destroyed; map<string,int> hello,bye; bool obs; bool throw_on_msg=false; int npub=0; vector<int> got;
  LWP(int i,int n,bool o):WorkProcess(AtomicID(o?1006:1005)),idx(i),nw(n),obs(o){ alive++; if(n==0) setAutoCatch(false); }
  ~LWP(){ alive--; destroyed[idx]++; if(inside) VIOL("destroyed-in-use","WP %d destroyed while one of its callbacks runs",idx); if(starts!=stops) VIOL("life-cycle","WP %d destroyed after %d start() and %d stop() calls",idx,starts,stops); }
  virtual void init(){ inits++; if(st!=0&&st!=3) VIOL("life-cycle","WP %d: init() in state %d",idx,st); st=1; if(obs){ subscribe(HIID("WP.Hello.*")); subscribe(HIID("WP.Bye.*")); } }
  virtual bool start(){ if(st!=1) VIOL("life-cycle","WP %d: start() in state %d",idx,st); starts++; struct End{ int &s; ~End(){ s=2; } } end{st}; for(int i=0;i<nw;i++) createWorker(); if(!obs&&coin(0.4)) events(); if(coin(0.2,"slow start")) sim_sleep_ns(pick(2000)*1000); return false; }
  // several timeouts and an input: none may reach the WP once it is stopped (let alone destroyed)
  int evfd=-1,evn=0; bool events_on=false; void events(){ events_on=true; sim_probe("WP with events"); int n=1+pick(3); for(int i=0;i<n;i++) addTimeout((1+pick(40))*0.001,AtomicID(810+i),coin(0.3)?EV_ONESHOT:0); if(coin(0.5)){ int fd[2]; if(!socketpair(AF_UNIX,SOCK_STREAM,0,fd)){ evfd=fd[1]; addInput(fd[0],EV_FDREAD); } if(coin(0.5)) ::send(fd[1],"x",1,0); } }
  void evcb(const char *what){ if(st!=2) VIOL(st==3?"callback-after-stop":"callback-before-start","WP %d: %s in state %d",idx,what,st); evn++; }
  virtual int timeout(const HIID &){ evcb("timeout()"); return Message::ACCEPT; }
  virtual int input(int fd,int){ evcb("input()"); char b[8]; ::recv(fd,b,8,MSG_DONTWAIT); return Message::ACCEPT; }
  virtual void stop(){ if(st!=2) VIOL("life-cycle","WP %d: stop() in state %d",idx,st); if(inside&&!detach_req) VIOL("stop-while-running","WP %d: stop() while a callback runs",idx); st=3; stops++; }
  virtual int receive(Message::Ref &m){ if(st!=2&&!(st==1&&nw==0&&0)) VIOL(st==3?"callback-after-stop":"callback-before-start","WP %d: receive() in state %d",idx,st);
    inside++; rcv++; const HIID &id=m->id();
    if(obs&&id.size()>2&&id[0]==AidWP){ string a=HIID(id.subId(2)).toString('.'); if(id[1]==AidHello) hello[a]++; else if(id[1]==AidBye) bye[a]++; }
    if(id.size()==2&&id[0]==AtomicID(800)){ got.push_back(id[1].index()); if(coin(0.2)){ Message::Ref r(new Message(AtomicID(801)|AtomicID(1)),DMI::ANONWR); publish(r); npub++; } if(detach_on_msg&&!detach_req){ detach_req=true; detachMyself(); } }
    if(coin(0.05)) sim_sleep_ns(pick(2000)*1000);
    inside--; return Message::ACCEPT; } };
int LWP::alive=0; map<int,int> LWP::destroyed;
static void scn_life(){
  vector<LWP*> live; int nextidx=0; map<int,string> addr; map<int,bool> gone; dsp=new Dispatcher(AtomicID(10),AtomicID(20)); 
  LWP *obs=new LWP(nextidx++,coin(0.3)?1:0,true); dsp->attach(obs,DMI::ANON); int n0=pick(4); for(int i=0;i<n0;i++){ LWP *w=new LWP(nextidx++,coin(0.4)?1+pick(2):0,false); live.push_back(w); dsp->attach(w,DMI::ANON); addr[w->idx]=w->address().toString('.'); }
  int how=pick(3); // 0: startThread; 1: start+pollLoop in a fiber
  startDsp(how==0?0:1); { function<bool()> f=[&]{ if(!obs->starts) return false; for(auto w:live) if(!w->starts) return false; return true; }; if(!waitFor(f,30*SEC)) VIOL("start-stuck","not started within 30 s"); }
  sim_sleep_ns(pick(3)*MS);
  bool nodet=coin(0.2); int nops=2+pick(12); int mid=0; set<int> dets;
  for(int k=0;k<nops;k++){ u64 r=pick(6);
    if(r<=1){ LWP *w=new LWP(nextidx++,coin(0.4)?1+pick(2):0,false); dsp->attach(w,DMI::ANON); addr[w->idx]=w->address().toString('.'); live.push_back(w); sim_probe("dyn_attach");
      function<bool()> f=[=]{ return w->starts>0; }; if(!waitFor(f,30*SEC)) VIOL("start-stuck","a WP attached to the running dispatcher was not started"); }
    else if((r==2||r==3)&&!start_ret) sim_sleep_ns(MS); // a WP is not detached while start() is still at work on it
    else if(r==2&&!live.empty()&&!nodet){ int i=pick(live.size()); LWP *w=live[i]; live.erase(live.begin()+i); MsgAddress a=w->address(); int ix=w->idx; dets.insert(ix); sim_probe("dyn_detach");
      WPRef keep(w,DMI::WRITE); bool imm=w->nw>0&&coin(0.6); int f=spawn("detacher",[=]{ dsp->detach(w,!imm); }); if(!waitFor([=]{ return sim_fiber_blocked(f)==2; },60*SEC)) VIOL("detach-stuck","detach() of WP %d (%d workers) did not return within 60 s",ix,w->nw);
      if(!imm){ function<bool()> sf=[=]{ return w->stops>0; }; if(!waitFor(sf,10*SEC)) VIOL("detach-stuck","WP %d (%d workers) was not stopped within 10 s of a delayed detach",ix,w->nw); }
      if(w->stops!=1) VIOL("life-cycle","detach() returned but stop() was called %d times",w->stops);
      int rc=w->rcv; Message::Ref m(new Message(AtomicID(800)|AtomicID(0)),DMI::ANONWR); int nd=obs->send(m,a); if(nd) VIOL("detached-delivery","a message to a detached WP counts %d deliveries",nd); (void)rc; }
    else if(r==3&&!live.empty()&&!nodet){ int i=pick(live.size()); LWP *w=live[i]; live.erase(live.begin()+i); MsgAddress a=w->address(); dets.insert(w->idx); w->detach_on_msg=true; sim_probe("self_detach"); Message::Ref m(new Message(AtomicID(800)|AtomicID(mid++)),DMI::ANONWR); obs->send(m,a); }
    else for(auto w:live) if(coin(0.7)){ Message::Ref m(new Message(AtomicID(800)|AtomicID(mid++)),DMI::ANONWR); int nd=obs->send(m,w->address()); if(nd!=1) VIOL("bad-count","message to an attached, running WP: %d deliveries",nd); }
    if(coin(0.5)) sim_sleep_ns(pick(20)*MS); }
  sim_calm();
  sim_sleep_ns(2*SEC);
  { // nudge: delayed detaches are carried out by the next poll
    Message::Ref m(new Message(AtomicID(800)|AtomicID(0)),DMI::ANONWR); if(!obs->nw) obs->send(m,obs->address()); TWP *x=new TWP(ClsA,90,0,false); dsp->attach(x,DMI::ANON); sim_sleep_ns(100*MS); Message::Ref m2(new Message(AtomicID(800)|AtomicID(0)),DMI::ANONWR); m2().setPriority(5); obs->send(m2,x->address()); waitFor([x]{ return x->queue().empty(); },60*SEC); /* the poll loop is running now, however late its thread was */ sim_sleep_ns(1*SEC); }
  for(auto w:live) if(!w->events_on&&!w->queue().empty()) VIOL("lost-delivery","WP %d (%d workers) has %zu undelivered messages in an idle system",w->idx,w->nw,w->queue().size());
  for(auto &a:addr){ int h=obs->hello[a.second]; bool d=dets.count(a.first); int b=obs->bye[a.second]; if(a.first<=n0){ if(h>1) VIOL("hello-count","WP %d announced itself %d times",a.first,h); } else if(h!=1) VIOL("hello-count","WP %d attached while running: %d Hello messages seen",a.first,h); if(b!=(d?1:0)) VIOL("bye-count","WP %d (%s): %d Bye messages seen",a.first,d?"detached":"attached",b); }
  for(int ix:dets) if(LWP::destroyed[ix]!=1) VIOL("not-destroyed","detached WP %d was destroyed %d times",ix,LWP::destroyed[ix]);
  sim_wild(); 
  if(!live.empty()&&!nodet&&coin(0.4)){ sim_probe("detach while stopping"); int i=pick(live.size()); LWP *w=live[i]; live.erase(live.begin()+i); w->detach_on_msg=true; Message::Ref m(new Message(AtomicID(800)|AtomicID(mid++)),DMI::ANONWR); obs->send(m,w->address()); }
  int sm=pick(4); sim_log("stopping, mode %d",sm);
  if(sm==3&&how!=0){ sim_node_signal(0,SIGINT); if(!waitFor([]{ return poll_done; },60*SEC)) VIOL("sigint-ignored","pollLoop() did not return within 60 s of SIGINT"); sim_probe("sigint"); }
  else if(sm==2&&how!=0){ spawn("sp",[]{ dsp->stopPolling(); }); if(!waitFor([]{ return poll_done; },60*SEC)) VIOL("stop-polling-ignored","pollLoop() did not return within 60 s of stopPolling()"); sim_probe("stop_polling"); }
  stop_called=true; int st=spawn("stopper",[]{ dsp->stop(); }); if(!waitFor([=]{ return sim_fiber_blocked(st)==2; },60*SEC)) VIOL("stop-stuck","stop() did not return within 60 s of simulated time");
  if(how!=0&&!waitFor([]{ return poll_done; },10*SEC)) VIOL("stop-stuck","pollLoop() is still running after stop()");
  sim_sleep_ns(10*MS);
  for(auto w:live) if(w->starts!=1||w->stops!=1) VIOL("life-cycle","WP %d: %d start, %d stop calls",w->idx,w->starts,w->stops);
  int lf=sim_live_fibers(0); if(lf) VIOL("thread-leak","%d threads are still alive after stop()",lf);
  delete dsp; if(LWP::alive) VIOL("not-destroyed","%d WPs not destroyed with their dispatcher",LWP::alive);
  sim_pass(); }

extern "C" void node_main(int role,void *shared){
  initOcto(); threadFaults();
  int scn=(int)sim_param("scn",1);
  switch(scn){ case 1: scn_local(); break; case 2: scn_timers(); break; case 3: scn_inputs(); break; case 4: scn_life(); break; }
}
