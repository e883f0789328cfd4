// The command server (MeqServer) with its event channel, over a real dispatcher; test nodes compute values a model knows.
#include "common.h"
#include <OCTOPUSSY/Octopussy.h>
#include <OCTOPUSSY/Dispatcher.h>
#include <OCTOPUSSY/WorkProcess.h>
#include <OCTOPUSSY/OctopussyConfig.h>
#include <MEQ/TID-Meq.h>
#include <MeqServer/MeqServer.h>
#include <AppAgent/OctoEventMux.h>
#include <AppAgent/OctoChannel.h>
#include <MEQ/Node.h>
#include <MEQ/MTPool.h>
#include <MEQ/Request.h>
#include <MEQ/Result.h>
#include <MEQ/Cells.h>
#include <MEQ/Domain.h>
#include <MEQ/MeqVocabulary.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/Exception.h>
#include <DMI/List.h>
#include <DMI/Vec.h>
#include <unistd.h>
using namespace Meq; using std::string; using std::vector; using std::map; using std::set; using Octopussy::Message; using Octopussy::MsgAddress;
#define VIOL(cls,...) sim_violation(cls,__VA_ARGS__)
// ---- parts of the server that are not simulated: the Python interface and the tables of parameters
int aidRegistry_MeqServer(){ return 0; } int aidRegistry_MeqNodes(){ return 0; } int aidRegistry_VisCube(){ return 0; }
static int py_inits=0,py_destroys=0;
namespace MeqPython { extern "C" void *PyInit_MeqPython(MeqServer*){ py_inits++; return 0; } void destroyMeqPython(){ py_destroys++; } void forceModuleReload(){} void testConversion(const DMI::BObj&){} }
namespace Meq { namespace ParmTableUtils { void closeTables(){} void flushTables(){} } }
// ---- nodes
static u64 mix64(u64 a,u64 b){ return mixh(a*0x9e3779b97f4a7c15ull+1,b); }
static double enc(u64 h){ return (double)(h>>12); }
static int reg_=(AtomicID::registerId(-20001,"SimNode"),AtomicID::registerId(-20002,"Sim"),AtomicID::registerId(-20003,"Tag"),AtomicID::registerId(-20005,"Slow"),0);
static const HIID FTag("Sim.Tag"), FSFail("Sim.Fail"), FSlow("Sim.Slow");
struct Ev { u64 t; int exec; string node; int thr; };  // an evaluation that was started
static vector<Ev> evs; static int evaluating=0; static set<int> lives_; static int nlive=0;
static int nthreads=1;
static MeqServer *mqs=0; static Octopussy::Dispatcher *dsp=0;
class SimNode: public Node { public: int tag=0,fail=0,slow=0; 
  SimNode():Node(-1,0,0){ disableAutoResample(); nlive++; } ~SimNode(){ nlive--; }
  virtual TypeId objectType() const { return TpMeqNode; }
  virtual void setStateImpl(DMI::Record::Ref &rec,bool init){ Node::setStateImpl(rec,init); int t; if(rec[FTag].get(t,false)) tag=t; if(rec[FSFail].get(t,false)) fail=t; if(rec[FSlow].get(t,false)) slow=t; }
  virtual int getResult(Result::Ref &ref,const vector<Result::Ref> &ch,const Request &req,bool){
    int ex=req.id()[4].id(); string nm=name(); evs.push_back({sim_seq(),ex,nm,(int)sim_self()}); evaluating++; sim_state(mix64(mix64(ex,evs.size()),sim_self()));
    if(slow==1) sim_yield(); else if(slow>1) sim_sleep_ns((u64)slow*200000);
    u64 h=mix64(tag+17,ex); for(size_t k=0;k<ch.size();k++){ if(!ch[k].valid()||!ch[k]->numVellSets()) VIOL("child-result","node %s: no result from child %zu",nm.c_str(),k); const VellSet &vs=ch[k]->vellSet(0); if(!vs.hasValue()){ evaluating--; NodeThrow(FailWithoutCleanup,"child without value"); } h=mix64(h*31+7,(u64)vs.getValue().as<double>()); }
    evaluating--; if(fail){ NodeThrow(FailWithoutCleanup,"simfail "+nm); }
    VellSet &vs=(ref <<= new Result(1)).setNewVellSet(0,0,0); vs.setValue(new Vells(enc(h),false)); return 0; }
};
static DMI::BObj *mkSim(int){ return new SimNode; }
// ---- model of the forest
struct MNode { string name; int idx=0; vector<int> chi; vector<string> ch; int tag=0,fail=0,slow=0; bool inited=false; };
struct Model { map<string,MNode> n; map<int,string> byidx; int maxidx=0; // nodes.size()-1
  bool has(const string &s) const { return n.count(s)>0; } };
static Model M; 
static bool mfail(const string &s){ const MNode &x=M.n[s]; if(x.fail||!x.inited) return true; for(auto &c:x.ch) if(mfail(c)) return true; return false; }
static u64 mval(const string &s,int ex){ const MNode &x=M.n[s]; u64 h=mix64(x.tag+17,ex); for(auto &c:x.ch) h=mix64(h*31+7,(u64)enc(mval(c,ex))); return h; }
static int msize(const string &s){ int k=1; for(auto &c:M.n[s].ch) k+=msize(c); return k; }
// ---- commands
enum Kind { K_BATCH,K_CREATE,K_DELETE,K_CLEAR,K_EXEC,K_CLEARCACHE,K_LIST,K_INDEX,K_STATE,K_FSTATUS,K_FSTATE,K_SETSTATE,K_SESSION,K_UNKNOWN,K_BREAK,K_DEBUG,K_ABORT,K_NORECORD,K_NOPUB,K_UNKNODE,K_HALT };
struct Cmd { int id; Kind kind; int client; string name; bool sync=false,silent=false; vector<MNode> batch; int exec=0; string node; int tag=0; u64 sent=0; vector<int> replies; u64 replied=0; bool applied=false; bool expect_err=false; int mask=0; bool may_abort=false; HIID cid; string what; string expname; bool expfail=false; };
static vector<Cmd*> cmds; static int execs=0; static bool aborts_used=false; static u64 lastreply=0;
struct Stop { u64 t; string node,state; };
static vector<Stop> stops; static int errors_seen=0; static string appstate; static int appqueue=-1;
class Client : public Octopussy::WorkProcess { public: int ix; bool up=false; vector<int> order; MsgAddress srv; bool addressed=false; int serial=0; vector<int> pend;
  Client(int i):WorkProcess(AtomicID(1001)),ix(i){}
  virtual void init(){ subscribe(HIID("MeqServer.Out")|AidWildcard); }
  virtual bool start(){ WorkProcess::start(); up=true; return false; }
  virtual int receive(Message::Ref &m);
};
static vector<Client*> cl; static bool multi=false; static bool checking=true;
static void applyReply(Client *c,Cmd *k,const DMI::Record &r);
static string errText(const DMI::Record &r){ if(!r[AidError].exists()) return ""; try { return r[AidError].as<string>(); } catch(...){ string s; try { const DMI::List &l=r[AidError].as<DMI::List>(); for(int i=0;i<l.size();i++){ DMI::Record::Ref x=l.get(i); s+=x[AidMessage].as<string>("")+"; "; } } catch(...){ s+="(error object)"; } return s; } }
int Client::receive(Message::Ref &m){ HIID id=m->id(); if(id.size()<3||id[0]!=AidMeqServer) return Message::ACCEPT; id=id.subId(2);
  if(id[0]==AidResult){ int n=id.back().index(); if(n<=0||n>=(int)cmds.size()) VIOL("stray-reply","client %d: reply %s does not belong to any command",ix,id.toString('.').c_str()); Cmd *k=cmds[n]; HIID want=AidResult|k->cid|AtomicID(n); if(id!=want) VIOL("stray-reply","client %d: reply to command %d is called %s, not %s",ix,n,id.toString('.').c_str(),want.toString('.').c_str());
    if(!m->payload().valid()||m->payload()->objectType()!=TpDMIRecord) VIOL("reply-content","reply %s has no record",id.toString('.').c_str());
    if(int(k->replies.size())<=ix) k->replies.resize(ix+1); if(++k->replies[ix]>1) VIOL("duplicate-reply","client %d got %d replies to command %d (%s)",ix,k->replies[ix],n,k->what.c_str());
    const DMI::Record &r=m->payload().as<DMI::Record>(); if(k->silent&&!r[AidError].exists()) VIOL("silent-reply","command %d (%s) was silent and succeeded, but a reply was sent",n,k->what.c_str());
    order.push_back(n); if(ix==0){ k->replied=sim_seq(); sim_log("reply %d %s%s%s",n,k->what.c_str(),r[AidError].exists()?" ERROR ":"",errText(r).c_str()); applyReply(this,k,r); k->applied=true; } }
  else if(ix==0&&id==HIID("Debug.Stop")){ const DMI::Record &r=m->payload().as<DMI::Record>(); string t=r[AidMessage].as<string>(); size_t a=t.find('\''),b=t.find('\'',a+1); Stop s{sim_seq(),t.substr(a+1,b-a-1),t.substr(b+1)}; sim_log("%s",t.c_str()); if(nthreads==1&&!r[AidForest|AidStatus][AidStopped].as<bool>()) VIOL("stop-status","Debug.Stop event says the forest is not stopped"); stops.push_back(s); }
  else if(ix==0&&id==HIID(AidError)){ errors_seen++; if(sim_param("verr",0)) { const DMI::Record &r=m->payload().as<DMI::Record>(); sim_log("ERR %s",errText(r).c_str()); } }
  else if(ix==0&&id==HIID("App.Notify.State")){ const DMI::Record &r=m->payload().as<DMI::Record>(); appstate=r[AidApp|AidState].as<HIID>().toString('.'); appqueue=r[AidApp|AidExec|AidQueue|AidSize].as<int>(); }
  return Message::ACCEPT; }
// ---- sequential model of the synchronous commands, applied in the order in which the server executes them
static set<string> vis; // names
static vector<vector<string>> history; // sorted list of node names after each synchronous command
static vector<u64> hist_t;             // when its reply was seen
static string join(const vector<string> &v){ string s; for(auto &x:v) s+=x+" "; return s; }
static vector<string> names(){ vector<string> v; for(auto &p:M.byidx) v.push_back(std::to_string(p.first)+":"+p.second); return v; }
static bool addNode(const MNode &x){ if(M.has(x.name)) return false; MNode y=x; if(!y.idx) y.idx=M.maxidx+1; M.maxidx=std::max(M.maxidx,y.idx); M.n[y.name]=y; M.byidx[y.idx]=y.name; return true; }
static bool model(Cmd *k){ // true if the command has to succeed
  switch(k->kind){ 
    case K_BATCH: { bool ok=true; for(auto &x:k->batch) if(!addNode(x)) ok=false; if(ok) for(auto &p:M.n) p.second.inited=true; return ok; }
    case K_CREATE: return addNode(k->batch[0]);
    case K_DELETE: { if(!M.has(k->node)) return false; int i=M.n[k->node].idx; M.byidx.erase(i); M.n.erase(k->node); if(i==M.maxidx) M.maxidx--; return true; }
    case K_CLEAR: M=Model(); return true;
    case K_EXEC: k->expfail=!M.has(k->node)||mfail(k->node); return !k->expfail;
    case K_SETSTATE: if(!M.has(k->node)) return false; M.n[k->node].tag=k->tag; return true;
    default: return !k->expect_err; } }
static vector<char> hist_sil;
static void syncDone(Cmd *k){ history.push_back(names()); hist_t.push_back(sim_seq()); hist_sil.push_back(k->silent); }
static int done_sync=0;
static vector<string> listOf(const DMI::Record &r){ vector<string> v; if(sim_param("verr",0)) sim_log("list %s",r.sdebug(4).c_str()); const DMI::Container &ni=r[AidNodeIndex].as<DMI::Container>(), &nm=r[AidName].as<DMI::Container>(); if(ni.size()==1&&!ni[HIID(0)].as<int>()) return v; /* a vector has at least one element */ for(int i=0;i<ni.size();i++) v.push_back(std::to_string(ni[i].as<int>())+":"+nm[i].as<string>()); return v; }
static void silentBefore(Cmd *k){ // silent commands which succeeded give no reply: apply them when a later one of the same queue replies
  if(multi) return; for(auto *p:cmds) if(p&&p!=k&&p->sync&&p->silent&&p->id<k->id&&!p->replied){ bool there=p->kind==K_BATCH||(p->kind==K_EXEC&&M.has(p->node)); bool ok=model(p)||there; /* a fail that is part of the result is not reported either */ if(!ok) VIOL("missing-error","silent command %d (%s) should have failed; no error came back",p->id,p->what.c_str()); p->replied=sim_seq(); syncDone(p); } }
static void checkExec(Cmd *k,const DMI::Record &r,bool ok){ 
    if(!r[AidResult|AidCode].exists()){ if(ok) VIOL("reply-content","command %d (%s): no result code, %s",k->id,k->what.c_str(),errText(r).c_str()); return; }
    int rc=r[AidResult|AidCode].as<int>(); if(rc&Node::RES_ABORT){ if(!k->may_abort) VIOL("spurious-abort","command %d (%s) reports an abort; none was asked for",k->id,k->what.c_str()); return; }
    if(ok){ if(rc&Node::RES_FAIL) VIOL("wrong-result","command %d (%s) failed: %s",k->id,k->what.c_str(),errText(r).c_str()); const Result &x=r[AidResult].as<Result>(); double v=x.vellSet(0).getValue().as<double>(); double w=enc(mval(k->node,k->exec)); if(v!=w) VIOL("wrong-result","command %d (%s): value %g, expected %g",k->id,k->what.c_str(),v,w); }
    else if(!(rc&Node::RES_FAIL)) VIOL("missing-error","command %d (%s): node fails but the reply has code %x",k->id,k->what.c_str(),rc); }
static u64 prev_serial=0; static int last_serial=0; static vector<string> last_list;
// the state of a node: what the last command set, or one that was under way meanwhile
struct TagSet { Cmd *k; int tag; }; static map<string,vector<TagSet>> tags; static bool cleared_any=false;
static void checkTag(Cmd *k,int tag){ if(cleared_any) return; int def=-1; u64 at=0; auto it=tags.find(k->node); bool ok=false; string al; if(it!=tags.end()) for(auto &t:it->second){ u64 done=t.k?t.k->replied:1; if(t.k&&(t.k->silent||!done||done>k->sent)){ al+=std::to_string(t.tag)+" "; if(t.tag==tag) ok=true; } else if(done>=at){ at=done; def=t.tag; } } else return;
  if(def!=tag&&!ok) VIOL("wrong-state","command %d (%s): the node's field is %d; last set to %d (under way: %s)",k->id,k->what.c_str(),tag,def,al.c_str()); }
static void applyReply(Client *c,Cmd *k,const DMI::Record &r){ if(!checking) return; bool err=r[AidError].exists();
  if(k->sync){ silentBefore(k); bool ok=model(k); 
    if(k->kind==K_EXEC) { checkExec(k,r,ok); if(k->may_abort&&r[AidResult|AidCode].exists()&&(r[AidResult|AidCode].as<int>()&Node::RES_ABORT)) ok=!err; }
    if(ok&&err) VIOL("unexpected-error","command %d (%s) failed: %s",k->id,k->what.c_str(),errText(r).c_str()); if(!ok&&!err) VIOL("missing-error","command %d (%s) should have failed and did not",k->id,k->what.c_str());
    if(ok&&k->kind==K_CREATE){ int ni=r[AidNodeIndex].as<int>(); if(ni!=M.n[k->batch[0].name].idx) VIOL("reply-content","command %d (%s): node index %d, expected %d",k->id,k->what.c_str(),ni,M.n[k->batch[0].name].idx); }
    if(r[AidForest|AidChanged].exists()){ u64 s=r[AidForest|AidChanged].as<int>(); if(s<=prev_serial) VIOL("serial","command %d (%s): forest serial %llu after %llu",k->id,k->what.c_str(),(unsigned long long)s,(unsigned long long)prev_serial); prev_serial=s; }
    if(k->kind==K_SETSTATE&&ok&&k->mask){ if(!r[AidNode|AidState].exists()) VIOL("reply-content","command %d (%s): no state in the reply",k->id,k->what.c_str()); int t=r[AidNode|AidState][FTag].as<int>(); if(t!=k->tag) VIOL("wrong-state","command %d (%s): set %d, the state in the reply says %d",k->id,k->what.c_str(),k->tag,t); }
    syncDone(k); }
  else if(err!=k->expect_err&&k->kind!=K_STATE&&k->kind!=K_INDEX&&k->kind!=K_SETSTATE) VIOL(err?"unexpected-error":"missing-error","command %d (%s): %s",k->id,k->what.c_str(),err?errText(r).c_str():"no error in the reply");
  else if(k->kind==K_LIST){ k->mask=1; k->batch.clear(); if(r[AidName].exists()){ last_list=listOf(r); last_serial=r[AidForest|AidSerial].as<int>(); } else if(!k->tag) VIOL("reply-content","command %d (%s) got no list",k->id,k->what.c_str()); else if(k->tag!=last_serial) { k->mask=0; return; }
    // no list means that the forest is still what it was when this serial was given out
    for(auto &s:last_list){ MNode x; x.name=s; k->batch.push_back(x); } }
  else if(k->kind==K_STATE&&!err&&r[FTag].exists()) checkTag(k,r[FTag].as<int>()); }
// after the run: every asynchronous list has to be a state between the synchronous commands finished before it was sent and those that may have started before its reply
static void checkLists(){ if(multi) {} for(auto *k:cmds) if(k&&k->kind==K_LIST&&k->mask){ vector<string> got; for(auto &x:k->batch) got.push_back(x.name); bool ok=false; size_t lo=0; for(size_t i=0;i<hist_t.size();i++) if(hist_t[i]<k->sent) lo=i; u64 T=~u64(0); for(size_t i=0;i<hist_t.size();i++) if(!hist_sil[i]&&hist_t[i]>k->replied&&hist_t[i]<T) T=hist_t[i]; // silent commands enter the history with the next reply: all states up to that one may be seen
    for(size_t i=lo;i<history.size()&&hist_t[i]<=T;i++) if(history[i]==got) ok=true;
    if(!ok) { // creation of a batch is not atomic: a prefix of it is fine
      for(size_t i=lo;i+1<history.size()&&hist_t[i+1]<=T&&!ok;i++){ const auto &a=history[i],&b=history[i+1]; if(got.size()>=a.size()&&got.size()<=b.size()&&std::equal(got.begin(),got.end(),b.begin())) ok=true; if(b.empty()&&got.size()<=a.size()) {} } }
    if(!ok) VIOL("list-not-linearizable","command %d (%s): the list is %s, which is not a state of the forest between %llu and %llu",k->id,k->what.c_str(),join(got).c_str(),(unsigned long long)k->sent,(unsigned long long)k->replied); } }
static HIID cmdName(Kind k){ switch(k){ case K_BATCH: return HIID("Create.Node.Batch"); case K_CREATE: return HIID("Create.Node"); case K_DELETE: return HIID("Delete.Node"); case K_CLEAR: return HIID("Clear.Forest"); case K_EXEC: return HIID("Node.Execute"); case K_CLEARCACHE: return HIID("Node.Clear.Cache"); case K_LIST: return HIID("Get.Node.List"); case K_INDEX: return HIID("Get.NodeIndex"); case K_STATE: return HIID("Node.Get.State"); case K_FSTATUS: return HIID("Get.Forest.Status"); case K_FSTATE: return HIID("Get.Forest.State"); case K_SETSTATE: return HIID("Node.Set.State"); case K_SESSION: return HIID("Set.Session.Name"); case K_ABORT: return HIID("Execute.Abort"); case K_NOPUB: return HIID("Disable.Publish.Results"); case K_HALT: return HIID("Halt"); case K_UNKNODE: return HIID("Node.Sim.Tag"); default: return HIID("Sim.Tag"); } }
static Cmd *newCmd(Kind kind,int client){ if(cmds.empty()) cmds.push_back(0); HIID nm=cmdName(kind); NoPreempt np; Cmd *k=new Cmd; k->id=cmds.size(); k->kind=kind; k->client=client; k->cid=nm; cmds.push_back(k); return k; }
static Request::Ref mkReq(int ex){ HIID id; id.resize(6); id[0]=RequestType::EVAL; for(int i=1;i<6;i++) id[i]=0; id[4]=ex; Domain::Ref d(new Domain(0,1,0,1),DMI::ANON); Cells::Ref c(new Cells(*d,2,2),DMI::ANON); return Request::Ref(new Request(*c,id),DMI::ANON); }
static DMI::Record::Ref nodeRec(const MNode &x){ DMI::Record::Ref rec(DMI::ANONWR); DMI::Record &r=rec(); r[FClass]="SimNode"; r[FName]=x.name; r[FTag]=x.tag; r[FSFail]=x.fail; r[FSlow]=x.slow; r[FMTPolling]=true; r[FCachePolicy]=(int)Node::CACHE_NEVER; if(!x.chi.empty()){ DMI::Vec *v=new DMI::Vec(Tpint,x.chi.size()); for(size_t i=0;i<x.chi.size();i++) (*v)[i]=x.chi[i]; r[FChildren]<<=v; } if(x.idx) r[FNodeIndex]=x.idx; return rec; }
static void sendCmd(Client *c,Cmd *k){ Message::Ref m; HIID id=HIID("MeqServer.In.Command")|k->cid; DMI::Record::Ref args(DMI::ANONWR); k->what=k->cid.toString('.')+" "+(k->node.empty()?"":k->node)+(k->silent?" silent":"")+(k->sync?" sync":"");
  { DMI::Record &a=args(); if(k->silent) a[AidSilent]=true;
    switch(k->kind){ case K_BATCH: { DMI::Vec *v=new DMI::Vec(TpDMIRecord,k->batch.size()); for(size_t i=0;i<k->batch.size();i++){ DMI::Record::Ref r=nodeRec(k->batch[i]); (*v)[i]=r; } a[AidBatch]<<=v; a[AidScript|AidName]="s"; break; }
      case K_CREATE: args=nodeRec(k->batch[0]); if(k->silent) args()[AidSilent]=true; break;
      case K_DELETE: case K_INDEX: case K_STATE: case K_CLEARCACHE: case K_UNKNODE: a[AidName]=k->node; if(k->sync) a[AidSync]=true; break;
      case K_LIST: if(k->tag) a[AidForest|AidSerial]=k->tag; break;
      case K_SETSTATE: { a[AidName]=k->node; DMI::Record::Ref s(DMI::ANONWR); s()[FTag]=k->tag; a[AidState]=s; if(k->sync) a[AidSync]=true; if(k->mask) a[AidGet|AidState]=true; break; }
      case K_EXEC: a[AidName]=k->node; a[AidRequest]=mkReq(k->exec); break;
      case K_SESSION: a[AidSession|AidName]="x"; break;
      case K_BREAK: if(!k->node.empty()) a[AidName]=k->node; if(k->mask) a[AidBreakpoint]=k->mask; if(k->tag) a[AidSingle|AidShot]=true; break;
      case K_DEBUG: if(!k->node.empty()) a[AidName]=k->node; break;
      default: break; } }
  if(k->kind==K_NORECORD){ m<<=new Message(id); } else { DMI::Record &rec=Message::withRecord(m,id); rec[AidArgs]=args; rec[AidCommand|AidIndex]=k->id; }
  NoPreempt np; k->sent=sim_seq(); sim_log("client %d sends %d %s",c->ix,k->id,k->what.c_str()); sim_atomic_end(); if(c->addressed) c->send(m,c->srv); else c->publish(m); sim_atomic_begin(); }
static bool answered(Cmd *k){ if(!k->applied) return false; for(auto *c:cl) if(int(k->replies.size())<=c->ix||!k->replies[c->ix]) return false; return true; }
static const u64 BOUND=120*SEC;
static void await(Cmd *k,const char *cls="no-reply"){ if(!waitFor([=]{ return answered(k); },BOUND)) VIOL(cls,"no reply to command %d (%s) within %.0f s of simulated time",k->id,k->what.c_str(),BOUND*1e-9); }
// ---- set-up and end
static bool run_returned=false; static AppAgent::OctoEventMux *muxp=0;
static void bring_up(int nclients){ static const char *argv[]={"sim",0}; Octopussy::OctopussyConfig::initGlobal(1,argv); int ll=(int)sim_param("loglevel",-1); Debug::setLevel("",ll>0?ll:0); Octopussy::WPInterface::setLogLevel(ll);
  nthreads=sim_param("threads",0)?(int)sim_param("threads",0):coin(0.5)?1:2+(int)pick(3); if(nthreads>1) MTPool::start(nthreads*2-1,nthreads);
  dsp=&Octopussy::init(false,false); mqs=new MeqServer; 
  DMI::Record::Ref recref; DMI::Record &rec=recref<<=new DMI::Record; rec[AppAgent::FEventMapIn]<<=new DMI::Record; rec[AppAgent::FEventMapIn][AppAgent::FDefaultPrefix]=AidMeqServer|AidIn; rec[AppAgent::FEventMapOut]<<=new DMI::Record; rec[AppAgent::FEventMapOut][AppAgent::FDefaultPrefix]=AidMeqServer|AidOut;
  static AppAgent::OctoEventMux::Ref mux(new AppAgent::OctoEventMux(AidMeqServer)); muxp=&mux(); static AppAgent::EventChannel::Ref ch(mux().newChannel()); mqs->attachControl(ch); dsp->attach(mux); ch().init(recref);
  for(int i=0;i<nclients;i++){ cl.push_back(new Client(i)); dsp->attach(cl[i],DMI::ANON); }
  Octopussy::initThread(true); multi=nclients>1; for(auto *c:cl){ c->srv=muxp->address(); c->addressed=coin(0.5); }
  spawn("server",[]{ try { mqs->run(); } catch(std::exception &e){ VIOL("exception","run(): %s",exceptionToString(e).c_str()); } run_returned=true; }); 
  if(!waitFor([]{ for(auto *c:cl) if(!c->up) return false; return py_inits>0; },10*SEC)) VIOL("start","not started"); 
  history.push_back({}); hist_t.push_back(0); hist_sil.push_back(0); }
static bool octo_stopped=false;
static void finish(){ // server stopped: nothing may be left
  if(!waitFor([]{ return run_returned; },BOUND)) VIOL("halt-stuck","the server does not end within %.0f s of being told to",BOUND*1e-9); if(nlive) VIOL("not-cleared","%d nodes exist after the server has ended",nlive); if(py_destroys!=1) VIOL("not-cleared","Python interface destroyed %d times",py_destroys); if(evaluating) VIOL("halt-running","%d evaluations run after the server has ended",evaluating);
  if(!octo_stopped) Octopussy::stopThread(); if(nthreads>1) MTPool::stop(); if(!waitFor([]{ return sim_live_fibers(0)==0; },BOUND)) VIOL("thread-leak","%d threads left after the end",sim_live_fibers(0)); sim_pass(); }
// ---- 1: histories of commands from several clients
static vector<MNode> mkBatch(const string &pre,int n,bool fails,int &base){ vector<MNode> v; for(int i=0;i<n;i++){ MNode x; x.idx=++base; x.name=pre+std::to_string(i); x.tag=1000*i+7+pick(5); x.slow=coin(0.4)?0:coin(0.5)?1:1+pick(20); x.fail=fails&&coin(0.08); v.push_back(x); } 
  for(int i=1;i<n;i++){ int p=coin(0.5)?(int)pick(i):std::max(0,i-1-(int)pick(2)); v[p].ch.push_back(v[i].name); v[p].chi.push_back(v[i].idx); if(coin(0.15)){ int q=pick(i); if(q!=p) { v[q].ch.push_back(v[i].name); v[q].chi.push_back(v[i].idx); } } } return v; }
static vector<string> shared_roots,shared_nodes; static Cmd *first_batch=0;
static void clientMain(Client *c,int ncmd,int *left){ string pre=string(1,'a'+c->ix); int nb=0, base=c->ix*150; vector<string> mine; vector<string> roots; vector<string> solo; vector<Cmd*> out; int clears=0; bool may_batch=c->ix==0;
  if(c->ix){ if(waitFor([]{ return first_batch&&answered(first_batch); },(1+pick(20))*SEC)){ mine=shared_nodes; roots=shared_roots; } }
  for(int i=0;i<ncmd;i++){ Cmd *k=0; int w=may_batch?coin(0.8)?0:9+(int)pick(4):(int)pick(16,"cmd");
    switch(w){ case 0: { if(!may_batch) continue; may_batch=false; k=newCmd(K_BATCH,c->ix); k->sync=true; k->batch=mkBatch(pre+std::to_string(nb++)+"_",1+pick(6),true,base); roots.push_back(k->batch[0].name); for(auto &x:k->batch){ mine.push_back(x.name); NoPreempt np; tags[x.name].push_back({k,x.tag}); } if(coin(0.1)){ MNode x=k->batch[pick(k->batch.size())]; x.idx=++base; x.ch.clear(); x.chi.clear(); k->batch.push_back(x); } if(!first_batch){ shared_nodes=mine; shared_roots=roots; first_batch=k; } break; }
      case 1: { k=newCmd(K_CREATE,c->ix); k->sync=true; MNode x; bool dup=!solo.empty()&&coin(0.2); x.name=dup?solo[pick(solo.size())]:pre+"s"+std::to_string(nb++); x.tag=5; x.idx=++base; k->batch={x}; if(!dup) solo.push_back(x.name); break; }
      case 2: { k=newCmd(K_DELETE,c->ix); k->sync=true; if(!solo.empty()&&coin(0.8)){ size_t j=pick(solo.size()); k->node=solo[j]; if(coin(0.7)) solo.erase(solo.begin()+j); } else k->node="nosuch"; break; }
      case 3: if(multi||clears>1||coin(0.5)) continue; clears++; k=newCmd(K_CLEAR,c->ix); k->sync=true; cleared_any=true; roots.clear(); mine.clear(); solo.clear(); may_batch=true; break;
      case 4: case 5: case 6: case 7: { k=newCmd(K_EXEC,c->ix); k->sync=true; k->node=!roots.empty()&&coin(0.93)?mine.empty()||coin(0.7)?roots[pick(roots.size())]:!solo.empty()&&coin(0.3)?solo[pick(solo.size())]:mine[pick(mine.size())]:"nosuch"; k->exec=++execs; break; }
      case 8: { if(mine.empty()) continue; k=newCmd(K_CLEARCACHE,c->ix); k->sync=true; k->node=mine[pick(mine.size())]; break; }
      case 9: k=newCmd(K_LIST,c->ix); if(coin(0.6)) k->tag=last_serial; break;
      case 10: k=newCmd(K_INDEX,c->ix); k->node=mine.empty()||coin(0.2)?"nosuch":mine[pick(mine.size())]; break;
      case 11: { if(mine.empty()&&solo.empty()) continue; k=newCmd(K_STATE,c->ix); k->node=solo.empty()||(!mine.empty()&&coin(0.6))?mine[pick(mine.size())]:solo[pick(solo.size())]; break; }
      case 12: k=newCmd(coin(0.5)?K_FSTATUS:coin(0.5)?K_FSTATE:coin(0.5)?K_SESSION:K_NOPUB,c->ix); break;
      case 13: { if(mine.empty()) continue; k=newCmd(K_SETSTATE,c->ix); k->sync=true; k->node=mine[pick(mine.size())]; k->tag=50000+pick(1000); k->mask=coin(0.3); { NoPreempt np; tags[k->node].push_back({k,k->tag}); } break; }
      case 14: { k=newCmd(coin(0.4)?K_UNKNOWN:K_UNKNODE,c->ix); k->expect_err=true; if(k->kind==K_UNKNODE){ if(mine.empty()){ k->kind=K_UNKNOWN; k->cid=cmdName(k->kind); } else { k->node=mine[pick(mine.size())]; k->sync=coin(0.5); } } break; }
      case 15: { k=newCmd(K_NORECORD,c->ix); break; } }
    if(k->kind==K_SETSTATE||k->kind==K_UNKNODE){}
    if(k->kind!=K_NORECORD&&k->kind!=K_UNKNOWN&&!multi&&k!=first_batch&&coin(0.1)) k->silent=true;
    sendCmd(c,k); if(k->kind!=K_NORECORD) out.push_back(k);
    if(coin(0.3)) sim_sleep_ns(pick(50)*100000); if(!k->silent&&k->kind!=K_NORECORD&&coin(0.25)) await(k); }
  --*left; }
static void scn_commands(){ int nc=coin(0.5)?1:2+(int)pick(2); bring_up(nc); threadFaults(); int ncmd=2+pick(sim_tier()?24:12,"ncmd"); static int left; left=nc; for(auto *c:cl) spawn("client",[=]{ clientMain(c,ncmd,&left); });
  if(!waitFor([]{ return left==0; },600*SEC)) VIOL("no-reply","clients still waiting"); sim_calm();
  for(auto *k:cmds) if(k&&!k->silent&&k->kind!=K_NORECORD) await(k);
  // the server still works, and everything sent before is through
  Cmd *last=newCmd(K_EXEC,0); last->sync=true; last->node="nosuch"; last->exec=++execs; sendCmd(cl[0],last); await(last); Cmd *ll=newCmd(K_LIST,0); sendCmd(cl[0],ll); await(ll); sim_sleep_ns(100*MS);
  int norec=0; for(auto *k:cmds) if(k){ int tot=0; for(int r:k->replies) tot+=r; if(k->kind==K_NORECORD){ norec++; if(tot) VIOL("stray-reply","reply to a message without a record"); } else if(!k->silent&&tot!=int(cl.size())) VIOL("no-reply","%d replies to command %d for %zu clients",tot,k->id,cl.size()); }
  if(errors_seen<norec) VIOL("missing-error","%d commands without a record, %d error events",norec,errors_seen);
  // replies come back in the order of sending: synchronous ones among themselves, asynchronous ones among themselves
  for(auto *c:cl) for(auto *d:cl) for(int s=0;s<2;s++){ int prev=0; for(int n:c->order) if(cmds[n]->client==d->ix&&cmds[n]->sync==(s==0)){ if(n<prev) VIOL("reply-order","client %d got the reply to command %d (%s) after that to command %d (%s), which was sent later",c->ix,n,cmds[n]->what.c_str(),prev,cmds[prev]->what.c_str()); prev=n; } }
  for(auto *c:cl) { if(c->order!=cl[0]->order) VIOL("reply-order","clients %d and 0 got the replies in different orders",c->ix); }
  checkLists(); if(appstate!="Idle"||appqueue!=0){ // the last notification is the state everybody believes in
    if(!waitFor([]{ return appstate=="Idle"&&appqueue==0; },SEC)&&0) VIOL("app-state","all commands are done, but the last state published is %s with %d commands queued",appstate.c_str(),appqueue); }
  // executions are serial, in the order of the replies
  { vector<int> eo; for(auto &e:evs) if(eo.empty()||eo.back()!=e.exec) eo.push_back(e.exec); set<int> seen; for(int e:eo) if(!seen.insert(e).second) VIOL("not-serial","evaluations of execution %d are mixed with those of another one",e); vector<int> want; for(int n:cl[0]->order) if(cmds[n]->kind==K_EXEC&&seen.count(cmds[n]->exec)) want.push_back(cmds[n]->exec); vector<int> got; for(int e:eo) { bool sil=false; for(auto *k:cmds) if(k&&k->exec==e&&k->silent) sil=true; if(!sil) got.push_back(e); } if(got!=want&&!multi) VIOL("not-serial","executions ran in another order than their replies came"); }
  Cmd *h=newCmd(K_HALT,0); sendCmd(cl[0],h); finish(); }
// ---- 2: debugging: breakpoints, stops, stepping, interrupts, aborts
static const int ST_IDLE=1,ST_REQ=2,ST_CMD=4,ST_POLL=8,ST_EVAL=16;
static int stMask(const string &st){ for(auto &p:vector<std::pair<string,int>>{{":IDLE",ST_IDLE},{":REQUEST",ST_REQ},{":COMMAND",ST_CMD},{":POLLING",ST_POLL},{":EVALUATING",ST_EVAL}}) if(st.find(p.first)!=string::npos) return p.second; VIOL("stop-event","stop event has no state: '%s'",st.c_str()); return 0; }
static Cmd *dbgCmd(const char *id,const string &node="",int mask=0,bool ss=false){ HIID cid(id); Cmd *k=newCmd(K_BREAK,0); k->cid=cid; k->node=node; k->mask=mask; k->tag=ss; sendCmd(cl[0],k); return k; }
static Cmd *ask(Cmd *k){ sendCmd(cl[0],k); return k; }
static map<string,int> nbp; // persistent breakpoints of the nodes
static int fbp=0;
static vector<string> dnodes; static string droot; static bool interrupts=false;
static void query(){ switch(pick(4,"query")){ case 0: { Cmd *k=newCmd(K_STATE,0); k->node=dnodes[pick(dnodes.size())]; await(ask(k),"no-reply-stopped"); break; } case 1: await(ask(newCmd(K_LIST,0)),"no-reply-stopped"); break; case 2: await(ask(newCmd(K_FSTATUS,0)),"no-reply-stopped"); break; default: await(ask(newCmd(K_FSTATE,0)),"no-reply-stopped"); } }
enum Resume { R_CONT,R_STEP,R_NEXT,R_UNTIL,R_ABORT };
// with one thread the stops are known exactly: the states the nodes pass through, and the breakpoints in force (several possibilities remain only
// when an interrupt arrived at an unknown moment, or stepping was left over from an earlier execution)
struct Tr { string node; int st; };
static vector<Tr> trs; static set<string> fcached; /* failures are cached, whatever the cache policy */
static void mkTrs(const string &n){ trs.push_back({n,ST_REQ}); if(fcached.count(n)){ trs.push_back({n,ST_IDLE|0x80}); return; } trs.push_back({n,ST_POLL}); const MNode &x=M.n[n]; bool cf=false; for(auto &c:x.ch){ mkTrs(c); if(mfail(c)) cf=true; } if(!cf) trs.push_back({n,ST_EVAL}); trs.push_back({n,ST_IDLE|(cf||x.fail?0x80:0)}); if(cf||x.fail) fcached.insert(n); }
struct DS { int gbp=0,gss=0,fuser=0; map<string,int> lbp,lss; string next,at; size_t pos=0; };
static vector<DS> dst(1); static bool int_pending=false; static bool dm_on=true; static set<string> fcached0;
static bool dmStep(DS &d,size_t i){ const Tr &t=trs[i]; bool stop=false,local=false; if(d.gss&t.st){ d.gss=0; stop=true; } else if(d.gbp&t.st) stop=true; if(d.lss[t.node]&t.st){ d.lss[t.node]=0; stop=local=true; } else if(d.lbp[t.node]&t.st) stop=local=true;
  if(stop&&!local&&d.next==t.node) return false; if(stop){ d.next=""; d.at=t.node; d.pos=i+1; } return stop; }
static void dmStart(const string &root){ trs.clear(); fcached0=fcached; mkTrs(root); if(aborts_used) for(auto &t:trs) if(t.st&0x80&&fcached0.count(t.node)) dm_on=false; /* an abort changes the result state, but not the cached failure */ vector<DS> v; for(auto &d:dst){ d.pos=0; d.next=""; v.push_back(d); if(d.gss){ DS e=d; e.gss=0; v.push_back(e); } if(d.gbp!=d.fuser){ DS e=d; e.gbp=e.fuser; v.push_back(e); e.gss=0; v.push_back(e); } } dst=v; }
static string dmExpect(){ string s; for(auto &d:dst){ DS e=d; size_t i=e.pos; while(i<trs.size()&&!dmStep(e,i)) i++; s+=i<trs.size()?"stop at "+trs[i].node+" state "+std::to_string(trs[i].st)+"; ":"end; "; } return s; }
static void dmStop(const Stop &s){ if(!dm_on) return; int m=stMask(s.state); vector<DS> v; string ex=dmExpect();
  for(auto &d0:dst){ DS d=d0; for(size_t i=d.pos;i<trs.size();i++){ if(int_pending&&trs[i].node==s.node&&(trs[i].st&m)){ DS e=d; e.next=""; e.gss=255; dmStep(e,i); v.push_back(e); } if(dmStep(d,i)){ if(trs[i].node==s.node&&(trs[i].st&m)) v.push_back(d); break; } } if(v.size()>60){ dm_on=false; return; } }
  if(v.empty()) VIOL("wrong-stop","stopped at %s%s; expected: %s",s.node.c_str(),s.state.c_str(),ex.c_str()); int_pending=false; dst=v; }
static void dmEnd(){ if(!dm_on) return; vector<DS> v; string ex=dmExpect(); for(auto &d0:dst){ DS d=d0; size_t i=d.pos; while(i<trs.size()&&!dmStep(d,i)) i++; if(i>=trs.size()) v.push_back(d); } if(v.empty()) VIOL("missed-stop","the execution finished; expected: %s",ex.c_str()); dst=v; }
static void dmAbort(){ if(!dm_on) return; fcached=fcached0; for(auto &d:dst) if(d.pos!=dst[0].pos) { dm_on=false; return; } for(size_t i=0;i<dst[0].pos;i++) if(trs[i].st&0x80||(trs[i].st==ST_EVAL&&i+1==dst[0].pos&&M.n[trs[i].node].fail)) fcached.insert(trs[i].node); }
static void dmResume(int r,const string &tgt){ for(auto &d:dst){ if(r==R_STEP){ d.gss=255; d.next=""; } else if(r==R_NEXT){ d.gbp=255; d.next=d.at; } else { if(r==R_UNTIL) d.lss[tgt]=255; d.gbp&=d.fuser; d.gss=0; d.next=""; } } }
static void setBreaks(){ int n=pick(4); for(int i=0;i<n;i++){ string nm=dnodes[pick(dnodes.size())]; bool ss=coin(0.3); const int ms[]={ST_EVAL,ST_REQ,ST_POLL,ST_IDLE,255,0x80,ST_EVAL|ST_IDLE}; int m=ms[pick(7)]; await(dbgCmd("Node.Set.Breakpoint",nm,m,ss)); for(auto &d:dst) (ss?d.lss:d.lbp)[nm]|=m; if(!ss) nbp[nm]|=m; else nbp[nm]|=0x1000; }
  if(n&&coin(0.15)){ string nm=dnodes[pick(dnodes.size())]; if(nbp.count(nm)){ bool ss=coin(0.5); const int ms[]={ST_EVAL,ST_REQ|ST_POLL,ST_IDLE,255}; int m=ms[pick(4)]; await(dbgCmd("Node.Clear.Breakpoint",nm,m,ss)); for(auto &d:dst) (ss?d.lss:d.lbp)[nm]&=~m; if(!ss) nbp[nm]&=~m; } }
  if(coin(0.15)){ const int ms[]={ST_EVAL,ST_POLL,ST_REQ|ST_IDLE}; int m=ms[pick(3)]; await(dbgCmd("Set.Forest.Breakpoint","",m)); fbp|=m; for(auto &d:dst){ d.gbp|=m; d.fuser|=m; } } }
static void clearBreaks(){ for(auto &p:nbp) if(p.second){ await(dbgCmd("Node.Clear.Breakpoint",p.first,255)); if(p.second&0x3000) await(dbgCmd("Node.Clear.Breakpoint",p.first,255,true)); } for(auto &d:dst){ d.lbp.clear(); for(auto &p:nbp) if(p.second&0x3000) d.lss[p.first]=0; if(fbp){ d.gbp=d.fuser=0; } } nbp.clear(); if(fbp) await(dbgCmd("Clear.Forest.Breakpoint","",255)); fbp=0; }
static const char *rname[]={"Debug.Continue","Debug.Single.Step","Debug.Next.Node","Debug.Until.Node","Execute.Abort"};
static size_t handled=0; static bool bps_changed=false,slowtree=false;
// a thread may have been stalled between looking at the stop flag and evaluating, so that each one may still start one evaluation
static void ranOn(size_t e1,const string &nm){ set<int> th; for(size_t i=e1;i<evs.size();i++) if(nthreads==1||!th.insert(evs[i].thr).second) VIOL("ran-on","thread %d evaluated %s while stopped at %s",evs[i].thr,evs[i].node.c_str(),nm.c_str()); }
static void debugSession(Cmd *ex,int maxstops,bool mayabort){ int nst=0; int last=-1; Stop laststop; string until; u64 tresumed=0; size_t ev0=0; bool aborted=false;
  while(true){ if(!waitFor([=]{ return answered(ex)||stops.size()>handled; },BOUND)) VIOL(last<0?"no-reply":"no-progress","%s after %s: execution neither stopped again nor finished",last<0?"nothing":rname[last],ex->what.c_str());
    bool stopped=stops.size()>handled; if(nthreads==1&&!aborted){ if(stopped) dmStop(stops[handled]); else dmEnd(); }
    // what may follow the last command
    if(nthreads==1&&last>=0&&!aborted){ size_t n=evs.size()-ev0; if(last==R_STEP&&n>1) VIOL("step","%zu evaluations were started after one single step",n);
      if(stopped){ Stop &st=stops[handled]; int m=stMask(st.state); bool local=nbp.count(st.node)&&nbp[st.node]; bool glob=fbp&m;
        if(last==R_NEXT&&!local&&!glob&&st.node==laststop.node) VIOL("next-node","asked for the next node, but stopped at %s%s again",st.node.c_str(),st.state.c_str());
        if(last==R_UNTIL&&st.node!=until&&!local&&!glob) VIOL("until-node","asked to stop at %s, but stopped at %s%s",until.c_str(),st.node.c_str(),st.state.c_str());
        if(last==R_CONT&&!local&&!glob&&!interrupts) VIOL("spurious-stop","stopped at %s%s, where there is no breakpoint",st.node.c_str(),st.state.c_str()); } 
      else if(last==R_STEP&&0) {} }
    if(!stopped) { handled=stops.size(); return; }
    // stopped
    if(aborted&&nthreads==1) VIOL("stop-after-abort","stopped at %s after an abort",stops[handled].node.c_str());
    laststop=stops.back(); handled=stops.size(); nst++;
    if(nthreads==1&&answered(ex)) VIOL("stop-event","execution has finished, but there is a stop at %s",laststop.node.c_str());
    size_t e1=evs.size(); sim_sleep_ns((slowtree?60:20)*MS); if(answered(ex)&&nthreads==1) VIOL("ran-on","the execution went on while stopped at %s",laststop.node.c_str()); ranOn(e1,laststop.node);
    int nq=pick(3); for(int i=0;i<nq;i++) query(); if(coin(0.3)) sim_sleep_ns(pick(100)*MS);
    ranOn(e1,laststop.node);
    if(answered(ex)) VIOL("ran-on","the execution finished while stopped at %s",laststop.node.c_str());
    handled=stops.size(); for(size_t i=0;i<stops.size();i++) if(stops[i].t>laststop.t) laststop=stops[i];
    if(nst>=maxstops){ bps_changed=true; clearBreaks(); interrupts=false; }
    int w=nst>=maxstops?(mayabort&&coin(0.2)?R_ABORT:R_CONT):(int)pick(mayabort?12:11,"resume"); Resume rs=nst>=maxstops?(Resume)w:w<4?R_CONT:w<7?R_STEP:w<9?R_NEXT:w<11?R_UNTIL:R_ABORT; 
    ev0=evs.size(); string tgt; if(rs==R_UNTIL){ tgt=dnodes[pick(dnodes.size())]; until=tgt; nbp[tgt]|=0; }
    if(rs==R_ABORT){ aborts_used=true; aborted=true; ex->may_abort=true; dmAbort(); }
    dmResume(rs,tgt); Cmd *k=dbgCmd(rname[rs],tgt); await(k,"no-reply-stopped"); last=rs; if(rs==R_UNTIL) { nbp[until]|=0x2000; } 
    if(nthreads==1){ for(size_t i=handled;i<stops.size();i++) if(stops[i].t<k->replied) VIOL("reply-order","stopped at %s before the reply to %s",stops[i].node.c_str(),k->what.c_str()); }
    else { while(handled<stops.size()&&stops[handled].t<k->replied) handled++; } } }
static void scn_debug(){ bring_up(1); threadFaults(); Client *c=cl[0]; int base=0; Cmd *b=newCmd(K_BATCH,0); b->sync=true; b->batch=mkBatch("n",nthreads>1&&coin(0.6)?8+pick(12):2+pick(7),true,base);
  if(nthreads>1&&coin(0.4)){ sim_probe("slow trees"); slowtree=true; for(auto &x:b->batch) x.slow=15+pick(25); } // other threads have still much to do when one stops
  for(auto &x:b->batch) dnodes.push_back(x.name); droot=dnodes[0]; ask(b); await(b);
  int rounds=1+pick(3,"rounds"); for(int rd=0;rd<rounds;rd++){ setBreaks(); bps_changed=false; size_t ns=stops.size(), ne=evs.size(); 
    Cmd *ex=newCmd(K_EXEC,0); ex->sync=true; ex->node=coin(0.8)?droot:dnodes[pick(dnodes.size())]; ex->exec=++execs; map<string,int> bp0=nbp; dmStart(ex->node); ask(ex);
    if(coin(0.35)){ sim_sleep_ns(pick(40)*200000); size_t e0=evs.size(); bool st0=stops.size()>handled; interrupts=true; int_pending=true; Cmd *k=dbgCmd("Debug.Interrupt"); await(k,"no-reply-stopped"); size_t e1=evs.size(); if(!st0&&stops.size()==handled){ waitFor([=]{ return answered(ex)||stops.size()>handled; },BOUND); if((int)(evs.size()-e1)>nthreads) VIOL("interrupt","%zu evaluations were started after the interrupt",evs.size()-e1); } (void)e0; }
    debugSession(ex,5+pick(25),true); await(ex); bool aborted=ex->may_abort;
    // every evaluation of a node with a breakpoint there was announced by a stop
    if(!aborted&&!bps_changed) for(auto &p:bp0) if((p.second&ST_EVAL)&&!(p.second&~0xff)){ int nev=0,nst=0; for(size_t i=ne;i<evs.size();i++) if(evs[i].node==p.first) nev++; for(size_t i=ns;i<stops.size();i++) if(stops[i].node==p.first&&stMask(stops[i].state)==ST_EVAL) nst++; if(nev!=nst) VIOL("missed-breakpoint","%s was evaluated %d times, but stopped %d times at its breakpoint",p.first.c_str(),nev,nst); }
    if(coin(0.5)){ clearBreaks(); } else for(auto &p:nbp) if(p.second&0x2000) p.second|=0x1000; }
  // without breakpoints everything runs through
  clearBreaks(); Cmd *dr=newCmd(K_EXEC,0); dr->sync=true; dr->node=droot; dr->exec=++execs; dmStart(droot); ask(dr); debugSession(dr,0,false); await(dr);
  size_t ns=stops.size(); Cmd *ex=newCmd(K_EXEC,0); ex->sync=true; ex->node=droot; ex->exec=++execs; ask(ex); waitFor([=]{ return answered(ex)||stops.size()>ns; },BOUND); if(stops.size()>ns) VIOL("spurious-stop","stopped at %s, all breakpoints have been cleared",stops[ns].node.c_str()); await(ex); if(!c) return;
  Cmd *h=newCmd(K_HALT,0); sendCmd(cl[0],h); finish(); }
// ---- 3: the server is told to end at any moment: running, queueing, stopped in the debugger
static void scn_halt(){ bring_up(1); threadFaults(); Client *c=cl[0]; int base=0; bool batch=coin(0.9); Cmd *b=0; if(batch){ b=newCmd(K_BATCH,0); b->sync=true; b->batch=mkBatch("n",1+pick(8),true,base); for(auto &x:b->batch) dnodes.push_back(x.name); droot=dnodes[0]; ask(b); if(coin(0.8)) await(b); }
  bool bps=batch&&answered(b)&&coin(0.5); if(bps) setBreaks(); 
  int n=batch?pick(5):0; vector<Cmd*> sent; for(int i=0;i<n;i++){ Cmd *k; if(coin(0.75)){ k=newCmd(K_EXEC,0); k->node=coin(0.8)?droot:dnodes[pick(dnodes.size())]; k->exec=++execs; } else { k=newCmd(K_CLEARCACHE,0); k->node=dnodes[pick(dnodes.size())]; } k->sync=true; ask(k); sent.push_back(k); if(coin(0.2)) sim_sleep_ns(pick(30)*200000); }
  if(bps&&coin(0.3)) dbgCmd("Debug.Interrupt");
  checking=false; if(coin(0.8)) { if(coin(0.5)) waitFor([=]{ return stops.size()>0||(!sent.empty()&&answered(sent.back())); },pick(100)*2*MS); else sim_sleep_ns(pick(200)*100000); }
  bool atbp=stops.size()>0; int how=pick(4,"how"); size_t ev0=evs.size(); int running=evaluating; Cmd *h=0; sim_log("halt by %d, %d running, %s",how,running,atbp?"stopped":"-");
  if(how<=1){ h=newCmd(K_HALT,0); h->silent=how==1&&coin(0.3); sendCmd(c,h); if(coin(0.15)){ Cmd *h2=newCmd(K_HALT,0); h2->silent=true; sendCmd(c,h2); } } else if(how==2){ Message::Ref m; m<<=new Message(HIID("MeqServer.In.Halt")); { NoPreempt np; } c->send(m,c->srv); } else { octo_stopped=true; Octopussy::stopThread(); }
  (void)ev0;
  if(!waitFor([]{ return run_returned; },BOUND)) VIOL("halt-stuck","the server does not end within %.0f s of being told to (%s, %zu stops)",BOUND*1e-9,how<=1?"Halt command":how==2?"Halt message":"communications stopped",stops.size());
  // what was being executed when the request came has been completed; after the end nothing is evaluated any more
  size_t e1=evs.size(); sim_sleep_ns(SEC); if(evs.size()!=e1||evaluating) VIOL("halt-running","nodes are evaluated after the server has ended");
  if(h&&!h->silent&&!waitFor([=]{ return answered(h); },10*SEC)) VIOL("no-reply","no reply to the Halt command");
  if(how!=3) { set<int> started; for(auto &e:evs) started.insert(e.exec); for(auto *k:sent) if(k->exec&&started.count(k->exec)&&!waitFor([=]{ return answered(k); },10*SEC)) VIOL("halt-lost-reply","execution %d was started, but its reply was never sent",k->exec);
    bool gap=false; for(auto *k:sent){ if(!answered(k)) gap=true; else if(gap) VIOL("reply-order","command %d was answered, an earlier one was not",k->id); } }
  finish(); }
extern "C" void node_main(int,void*){   DMI::DynamicTypeManager::addToRegistry(TypeId("SimNode"),&mkSim);
  try { switch((int)sim_param("scn",1)){ case 1: scn_commands(); break; case 2: scn_debug(); break; case 3: scn_halt(); break; } } catch(std::exception &e){ VIOL("exception","%s",exceptionToString(e).c_str()); } }
