// Several Octopussy processes joined by gateways over a simulated network.
#include "common.h"
#include <OCTOPUSSY/Octopussy.h>
#include <OCTOPUSSY/Dispatcher.h>
#include <OCTOPUSSY/WorkProcess.h>
#include <OCTOPUSSY/OctopussyConfig.h>
#include <OCTOPUSSY/Gateways.h>
#include <OCTOPUSSY/GWServerWP.h>
#include <OCTOPUSSY/GWClientWP.h>
#include <OCTOPUSSY/MTGatewayWP.h>
#include <DMI/Record.h>
#include <DMI/NumArray.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
using namespace Octopussy; using namespace DMI; using namespace std;
#define VIOL(cls,...) sim_violation(cls,__VA_ARGS__)
// ---- shared between all simulated processes (same code, one address space); only plain data and containers
struct WpInfo { int idx,node,inst; bool sub_a,sub_b; int scope; bool dead=false; int workers=0; };   // one ledger WP
struct MsgRec { int id,pri,from,kind,to,scope; string text; vector<double> data; u64 inv=0,ret=0; set<int> must,may; map<int,int> got; int stream; u64 order; bool big; bool bare=false; int blk=-1; };
struct NodeInfo { int idx; string host; int proc,hostid; int sim=-1; bool ready=false,stop=false,stopped=false; int port=0; vector<pair<string,int>> peers; vector<WpInfo*> wps; set<string> conn; map<string,int> up,down; bool unixsrv=false; int inc=0; map<string,int> hello,bye; bool gwserver=true, proactive=true; vector<string> notes; int nsend=0; bool sending_done=false; int live=0; map<int,int> dyn; int cmd=0,cmdarg=0,cmddone=0; bool tap=false; int npeers=0; map<string,int> bytes; u64 t_stop=0; };
struct World { vector<NodeInfo*> nodes; vector<MsgRec*> msgs; vector<WpInfo*> wps; int phase=0; bool faults=false, adv_done=false; map<pair<int,int>,vector<int>> arrivals; int streams=0; };
static World *W; static NodeInfo *me; static Dispatcher *dsp;
static const AtomicID ClsL(1001);
static string peerid(const NodeInfo *n){ return HIID(AtomicID(n->proc)|AtomicID(n->hostid)).toString('.'); }
static MsgAddress addrOf(const WpInfo *w){ const NodeInfo *n=W->nodes[w->node]; return MsgAddress(ClsL,AtomicID(w->inst),AtomicID(n->proc),AtomicID(n->hostid)); }
static bool scopeReach(int scope,const NodeInfo *a,const NodeInfo *b){ return a==b||scope==Message::GLOBAL||(scope==Message::HOST&&a->hostid==b->hostid); }
class LWP : public WorkProcess { public: WpInfo *in; bool started_=false; 
  LWP(WpInfo *i):WorkProcess(ClsL),in(i){}
  virtual void init(){ if(in->sub_a) subscribe(AtomicID(500)|AtomicID(1)|AidWildcard,in->scope); if(in->sub_b) subscribe(AtomicID(500)|AtomicID(2)|AidWildcard,in->scope); }
  virtual bool start(){ WorkProcess::start(); for(int i=0;i<in->workers;i++) createWorker(); started_=true; return false; }
  virtual int receive(Message::Ref &m){ const HIID &id=m->id(); if(id.size()!=3||id[0]!=AtomicID(500)) return Message::ACCEPT; int k=id[2].index(); MsgRec *r=W->msgs[k]; string t=r->text; vector<double> d=r->data; if(r->bare){ if(m->payload().valid()) VIOL("content-changed","message %d, sent without a payload, arrived with one",k); } else { t=(*m)[AidText].as<string>(); d=(*m)[AtomicID(501)].as_vector<double>(); } MsgAddress want=addrOf(W->wps[r->from]); int nb=m->block().valid()?int(m->datasize()):-1; bool bok=nb==r->blk; const char *bd=nb>0?(const char*)m->data():0; for(int i=0;bok&&i<nb;i++) bok=bd[i]==char(r->id+i); NoPreempt np;
    if(!bok) VIOL("content-changed","message %d arrived at WP %d of node %d with a changed data block (%d/%d bytes)",k,in->idx,in->node,nb,r->blk);
    if(!r->may.count(in->idx)) VIOL("misdelivered","message %d (from node %d, kind %d, scope %d) arrived at WP %d of node %d, which it was not meant for",k,W->wps[r->from]->node,r->kind,r->scope,in->idx,in->node);
    if(t!=r->text||d!=r->data||id[1].index()!=(r->kind==2?2:1)||m->priority()!=r->pri) VIOL("content-changed","message %d arrived at WP %d of node %d with changed content (priority %d/%d, %zu/%zu values)",k,in->idx,in->node,m->priority(),r->pri,d.size(),r->data.size());
    if(m->from()!=want) VIOL("content-changed","message %d arrived with sender %s instead of %s",k,m->from().toString().c_str(),want.toString().c_str());
    int &g=r->got[in->idx]; if(++g>1) VIOL("remote-duplicate","message %d from node %d delivered %d times to WP %d of node %d",k,W->wps[r->from]->node,g,in->idx,in->node);
    if(in->workers<2) for(int o:W->arrivals[{r->stream,in->idx}]){ MsgRec *x=W->msgs[o]; if(x->pri==r->pri&&x->order>r->order) VIOL("remote-order","WP %d of node %d got message %d after message %d of the same priority, which the same sender sent later",in->idx,in->node,k,o); }
    W->arrivals[{r->stream,in->idx}].push_back(k); sim_state(mixh(mixh(in->node,queue().size()),r->pri)); return Message::ACCEPT; } };
// observes connection events of its process
class MonWP : public WorkProcess { public: MonWP():WorkProcess(AtomicID(1002)){} bool started_=false;
  virtual void init(){ if(sim_param("loglevel",-1)>0) subscribe(AidMsgLog|AidWildcard,Message::LOCAL); subscribe(MsgGWRemoteUp|AidWildcard,Message::LOCAL); subscribe(MsgGWRemoteDown|AidWildcard,Message::LOCAL); subscribe(MsgHello|AidWildcard,Message::GLOBAL); subscribe(MsgBye|AidWildcard,Message::GLOBAL); }
  virtual bool start(){ WorkProcess::start(); started_=true; return false; }
  virtual int receive(Message::Ref &m){ const HIID &id=m->id(); string p; int k=0; if(id[0]==AidMsgLog){ sim_log("LOG %s: %s",m->from().toString().c_str(),(*m)[AidText].as<string>().c_str()); return Message::ACCEPT; } if(id.prefixedBy(MsgGWRemoteUp)) k=1; else if(id.prefixedBy(MsgGWRemoteDown)) k=2; else if(id.prefixedBy(MsgHello)) k=3; else if(id.prefixedBy(MsgBye)) k=4; if(k) p=HIID(id.subId(k<3?3:2)).toString('.'); NoPreempt np; if(k==1) { me->up[p]++; sim_log("node %d: Remote.Up %s",me->idx,p.c_str()); if(me->up[p]-me->down[p]>1) VIOL("up-twice","node %d: Remote.Up for %s while it is already connected",me->idx,p.c_str()); }
    else if(k==2){ me->down[p]++; sim_log("node %d: Remote.Down %s",me->idx,p.c_str()); }
    else if(k==3) me->hello[p]++; else if(k==4) me->bye[p]++;
    return Message::ACCEPT; } };
static void initOcto(){  static const char *argv[]={"sim",0}; OctopussyConfig::initGlobal(1,argv);  { int ll=(int)sim_param("loglevel",-1); Debug::setLevel("",ll>0?ll:0); WPInterface::setLogLevel(ll); }}
static bool connectedTo(const NodeInfo *n){ Thread::Mutex::Lock l(gatewayPeerList.mutex()); return gatewayPeerList[HIID(AtomicID(n->proc)|AtomicID(n->hostid))].exists(); }
static Message::Ref makeMsg(MsgRec *r){ Message::Ref ref; DMI::Record &rec=Message::withRecord(ref,AtomicID(500)|AtomicID(r->kind==2?2:1)|AtomicID(r->id)); ref().setPriority(r->pri); rec[AidText]=r->text; rec[AtomicID(501)]=r->data; if(r->blk>=0){ SmartBlock *b=new SmartBlock(r->blk); for(int i=0;i<r->blk;i++) b->cdata()[i]=char(r->id+i); ref().block()<<=b; } return ref; }
static MsgRec *newMsg(WpInfo *from,int stream,int kind,WpInfo *to){ NoPreempt np; MsgRec *r=new MsgRec; r->id=W->msgs.size(); r->from=from->idx; r->kind=kind; r->stream=stream; r->order=sim_seq(); r->to=to?to->idx:-1; const int P[]={Message::PRI_NORMAL,Message::PRI_NORMAL,Message::PRI_LOW,Message::PRI_HIGH}; r->pri=P[pick(4)]; r->scope=kind==0?0:(int)pick(3); r->text="m"+to_string(pick(100000)); int n=coin(0.1)?200+pick(3000):pick(12); r->big=n>=200; for(int i=0;i<n;i++) r->data.push_back(r->id*1000+i*0.5); if(coin(0.2)) r->blk=coin(0.3)?0:1+pick(coin(0.1)?20000:40); if(coin(0.15)){ r->bare=true; r->data.clear(); r->big=false; r->blk=-1; } W->msgs.push_back(r); return r; }
static void expect(MsgRec *r){ NodeInfo *src=W->nodes[W->wps[r->from]->node]; for(auto w:W->wps) if(!w->dead){ bool t; NodeInfo *dst=W->nodes[w->node]; if(r->kind==0) t=w->idx==r->to; else { t=(r->kind==1?w->sub_a:w->sub_b)&&scopeReach(r->scope,src,dst)&&scopeReach(w->scope,dst,src); } if(t){ r->must.insert(w->idx); r->may.insert(w->idx); } } }
static void sendOne(LWP *from,MsgRec *r){ if(r->bare){ HIID id=AtomicID(500)|AtomicID(r->kind==2?2:1)|AtomicID(r->id); r->inv=sim_seq(); if(r->kind==0) from->send(id,addrOf(W->wps[r->to]),0,r->pri); else from->publish(id,0,r->scope,r->pri); r->ret=sim_seq(); return; } Message::Ref ref=makeMsg(r); r->inv=sim_seq(); if(r->kind==0) from->send(ref,addrOf(W->wps[r->to])); else from->publish(ref,0,r->scope); r->ret=sim_seq(); }
static void traffic(vector<LWP*> &wps,int nmsg,const char *nm,int *left,bool exp){ LWP *from=wps[pick(wps.size())]; int stream; { NoPreempt np; stream=W->streams++; }
  spawn(nm,[=]{ for(int k=0;k<nmsg;k++){ int kind=pick(3); WpInfo *to=0; if(kind==0){ vector<WpInfo*> c; for(auto w:W->wps) if(!w->dead) c.push_back(w); to=c[pick(c.size())]; } MsgRec *r=newMsg(from->in,stream,kind,to); if(exp) expect(r); else { expect(r); r->must.clear(); } sendOne(from,r); if(coin(0.4)) sim_sleep_ns(pick(3000)*1000); } --*left; }); }
static vector<LWP*> wps; static MonWP *mon;
static void bootNode(){ initOcto(); if(coin(0.6,"delay")) sim_sleep_ns(pick(3000)*MS/(1+pick(100)));
  dsp=new Dispatcher(AtomicID(me->proc),AtomicID(me->hostid)); mon=new MonWP; dsp->attach(mon,DMI::ANON);
  for(auto w:me->wps){ LWP *x=new LWP(w); wps.push_back(x); w->inst=-1; dsp->attach(x,DMI::ANON); w->inst=x->address().inst().index(); }
  if(me->gwserver) dsp->attach(new GWServerWP(me->port),DMI::ANON); if(me->unixsrv) dsp->attach(new GWServerWP("=octo",-1),DMI::ANON);
  bool first=true; for(auto &p:me->peers){ dsp->attach(new GWClientWP(p.first,p.second,Socket::TCP,first&&me->proactive),DMI::ANON); first=false; } if(first) dsp->attach(new GWClientWP("",0,0,me->proactive),DMI::ANON);
  dsp->startThread(true); me->ready=true; }
static void stopNode(){ int st=spawn("stopper",[]{ dsp->stop(); }); if(!waitFor([=]{ return sim_fiber_blocked(st)==2; },120*SEC)) VIOL("stop-stuck","node %d: stop() did not return within 120 s",me->idx); me->live=sim_live_fibers(sim_node()); me->t_stop=sim_now_ns(); me->stopped=true; }
// ---- node side of the scenarios
static void nodeMain(){ bootNode(); int left=0; int phase=0; u64 last=0;
  while(!me->stop){ // report connections
    { set<string> c; for(auto n:W->nodes) if(n!=me&&connectedTo(n)) c.insert(peerid(n)); me->conn=c; }
    if(W->phase!=phase){ phase=W->phase; if(phase>=2){ int ns=1+pick(2); left=ns; me->sending_done=false; for(int i=0;i<ns;i++) traffic(wps,1+pick(sim_tier()?14:8),"sender",&left,phase==2||phase==4); } }
    if(phase>=2&&!left) me->sending_done=true;
    sim_sleep_ns(20*MS); (void)last; }
  stopNode(); }
// ---- orchestrator
static bool allConnected(){ for(auto a:W->nodes) for(auto b:W->nodes) if(a!=b&&(!a->ready||!a->conn.count(peerid(b)))) return false; return true; }
static string connState(){ string s; for(auto a:W->nodes){ s+=" node"+to_string(a->idx)+(a->ready?"{":"(not ready){"); for(auto &c:a->conn) s+=c+","; s+="}"; } return s; }
static void startNodes(){ for(auto n:W->nodes) if(n->idx) n->sim=sim_node_start(n->host.c_str(),n->idx,W); W->nodes[0]->sim=0; spawn("node0",[]{ nodeMain(); }); }
static void mkWorld(int n,bool both,bool full){ bool proact=coin(0.5); W=new World; for(int i=0;i<n;i++){ NodeInfo *x=new NodeInfo; x->idx=i; x->proc=100+(int)((i*7+pick(3))%50)*2+i; W->nodes.push_back(x); 
    bool samehost=i>0&&coin(0.25); if(samehost){ x->host=W->nodes[i-1]->host; x->hostid=W->nodes[i-1]->hostid; } else { x->host="h"+to_string(i+1); x->hostid=10+(int)pick(5)+10*i; }
    if(i>0&&!samehost&&coin(0.3)) x->proc=W->nodes[pick(i)]->proc; x->unixsrv=coin(0.3); x->proactive=proact; x->port=samehost?W->nodes[i-1]->port+1:4808;
    if(i>0){ int k0=full?0:(int)pick(i),k1=full?i:k0+1; for(int k=k0;k<k1;k++){ const NodeInfo *p=W->nodes[k]; x->peers.push_back({p->host==x->host?string("localhost"):p->host,p->port}); } } 
    int nw=1+pick(2); for(int k=0;k<nw;k++){ WpInfo *w=new WpInfo; w->idx=W->wps.size(); w->node=i; w->inst=k; w->sub_a=coin(0.5); w->sub_b=coin(0.5); w->scope=coin(0.6)?Message::GLOBAL:(int)pick(3); w->workers=coin(0.3)?1+(int)pick(2):0; W->wps.push_back(w); x->wps.push_back(w); } }
  if(both&&n>1) W->nodes[0]->peers.push_back({W->nodes[1]->host==W->nodes[0]->host?"localhost":W->nodes[1]->host,W->nodes[1]->port}); 
  me=W->nodes[0]; }
static void waitConnected(u64 t,const char *cls,const char *when){ if(!waitFor(allConnected,t)) VIOL(cls,"%s: the processes are not all connected after %.0f s:%s",when,t*1e-9,connState().c_str()); }
static void waitSent(){ if(!waitFor([]{ for(auto n:W->nodes) if(!n->sending_done) return false; return true; },300*SEC)) VIOL("send-stuck","a send() did not return within 300 s"); }
static void waitDelivered(const char *cls){ auto miss=[]{ string s; for(auto r:W->msgs) for(int w:r->must) if(!r->got.count(w)) s+=" msg "+to_string(r->id)+" node"+to_string(W->wps[r->from]->node)+"->wp"+to_string(w)+"@node"+to_string(W->wps[w]->node); return s; };
  if(!waitFor([&]{ for(auto r:W->msgs) for(int w:r->must) if(!r->got.count(w)) return false; return true; },60*SEC)) VIOL(cls,"messages not delivered within 60 s although all links are up and nothing else happens:%s",miss().c_str()); }
static void stopAll(){ for(auto n:W->nodes){ n->stop=true; if(coin(0.5)) sim_sleep_ns(pick(500)*MS); } if(!waitFor([]{ for(auto n:W->nodes) if(!n->stopped) return false; return true; },200*SEC)) VIOL("stop-stuck","not all processes stopped"); 
  sim_sleep_ns(10*MS); for(auto n:W->nodes) if(n->live>(n->idx?0:2)&&0) VIOL("thread-leak","node %d: %d threads left after stop()",n->idx,n->live); }
static void scn_exchange(){ mkWorld(2+pick(sim_tier()?3:2),false,true); netFaults(); startNodes(); waitConnected(200*SEC,"not-connected","after start"); 
  sim_sleep_ns(2*SEC); // subscriptions settle
  W->phase=2; waitSent(); sim_calm(); waitDelivered("remote-lost"); sim_sleep_ns(500*MS); sim_wild(); stopAll(); 
  for(auto r:W->msgs) for(auto &g:r->got) if(g.second!=1) VIOL("remote-duplicate","message %d delivered %d times to WP %d",r->id,g.second,g.first); sim_pass(); }

// ---- a peer that is not (or not quite) an Octopussy gateway
struct PH { char sig[3]; unsigned char type; long content; }; struct DT { int seq; long checksum; int msgsize; };
static string wire(Message &m){ BlockSet b; m.toBlock(b); int n=b.size(); string out; for(int i=0;i<n;i++){ BlockRef r; b.pop(r); PH h; memset(&h,0,sizeof h); memcpy(h.sig,"oMs",3); h.type=1; h.content=r->size(); out.append((char*)&h,sizeof h); const char *d=(const char*)r->data(); out.append(d,r->size()); DT t; memset(&t,0,sizeof t); t.seq=i; t.checksum=0; for(size_t k=0;k<r->size();k++) t.checksum+=d[k]; t.msgsize=i+1<n?0:n; out.append((char*)&t,sizeof t); } return out; }
static const int MUTE=16;
// the initialisation message of a process (proc,host) with nw work processes that want messages nobody sends; mut: damage its subscription block
static string wireInit(int proc,int host,int nw,int mut){ vector<MsgAddress> ad; vector<Subscriptions> su; size_t data=0; for(int i=0;i<nw;i++){ ad.push_back(MsgAddress(AtomicID(1005),AtomicID(i),AtomicID(proc),AtomicID(host))); Subscriptions x; for(int k=pick(3);k>0;k--) x.add(AtomicID(600+k)|AtomicID(i),MsgAddress(AidPublish,AidPublish,AidAny,AidAny)); su.push_back(x); data+=x.packSize()+ad[i].packSize(); }
  size_t hs=(1+2*nw)*sizeof(size_t); SmartBlock *b=new SmartBlock(hs+data); BlockRef br(b,DMI::ANON); size_t *h=(size_t*)b->data(); char *d=(char*)b->data()+hs; *h++=nw; for(int i=0;i<nw;i++){ d+=*h++=ad[i].pack(d,data); d+=*h++=su[i].pack(d,data); }
  size_t *hh=(size_t*)b->data(); if(mut){ int w=pick(1+2*nw); const size_t v[]={0,1,2,(size_t)nw+1,1000,1u<<20,0x7fffffff,0x80000000u,0xffffffffu,(size_t)-1,(size_t)-8,(size_t)1<<62,(size_t)1<<63}; hh[w]=coin(0.3)?hh[w]+pick(9)-4:v[pick(13)]; }
  Message::Ref m; m<<=new Message(AidSubscriptions,br); m().setFrom(MsgAddress(AidGatewayWP,AtomicID(0),AtomicID(proc),AtomicID(host))); return wire(m); }
static string advStream(int kind,int proc,int host){ string o; auto rnd=[&](int n,bool om){ string x; for(int i=0;i<n;i++) x+=om?"oMso\1oM"[pick(7)]:(char)pick(256); return x; }; auto hdr=[&](int type,long c){ PH h; memset(&h,0,sizeof h); memcpy(h.sig,"oMs",3); h.type=type; h.content=c; return string((char*)&h,sizeof h); };
  int nw=pick(4);
  switch(kind){
    case 0: return rnd(pick(200),false);
    case 1: return rnd(pick(120),true);
    case 2: { const int T[]={0,2,3,4,5,200,255}; for(int k=1+pick(3);k>0;k--) o+=hdr(T[pick(7)],coin(0.5)?0:(long)pick(1000)); if(coin(0.5)) o+=wireInit(proc,host,nw,0); return o; }
    case 3: { const long C[]={0,-1,1,512l*1024*1024+1,1l<<40,-(1l<<40),0x80000000l,100,(long)(1ul<<63)}; if(coin(0.5)) o=wireInit(proc,host,nw,0); o+=hdr(1,C[pick(9)]); o+=rnd(pick(200),coin(0.3)); return o; }
    case 4: o=wireInit(proc,host,nw,0); return o.substr(0,pick(o.size()));
    case 5: return wireInit(proc,host,nw,1);
    case 6: { Message::Ref m; m<<=new Message(AtomicID(600)|AtomicID(pick(4))); m().setFrom(MsgAddress(AtomicID(1005),AtomicID(0),AtomicID(proc),AtomicID(host))); m().setTo(MsgAddress(AidPublish)); return wire(m)+(coin(0.5)?wireInit(proc,host,nw,0):string()); }
    case 7: { o=rnd(1+pick(40),coin(0.5)); if(o.find("oMs")!=string::npos) o.clear(); return o+wireInit(proc,host,nw,0); }   // junk, then a proper greeting
    default: { o=wireInit(proc,host,nw,0); for(int k=pick(4);k>0;k--){ MsgAddress a(AtomicID(1005),AtomicID(pick(3)),AtomicID(proc),AtomicID(host)); Message::Ref m; int t=pick(3);
        if(t==0) m<<=new Message(MsgBye|a); else if(t==1){ Subscriptions x; x.add(AtomicID(601)|AtomicID(1),MsgAddress(AidPublish,AidPublish,AidAny,AidAny)); size_t sz=x.packSize(); SmartBlock *b=new SmartBlock(sz); BlockRef br(b,DMI::ANON); x.pack(b->data(),sz); if(coin(0.6)&&b->size()>=4){ int *q=(int*)b->data(); const int v[]={0,-1,1000,1<<30,(int)0x80000000}; q[pick(b->size()/4)]=v[pick(5)]; } m<<=new Message(MsgSubscribe|a,br,0); } else m<<=new Message(AtomicID(602)|AtomicID(1));
        m().setFrom(a); m().setTo(MsgAddress(AidPublish)); o+=wire(m); } if(coin(0.5)) o=o.substr(0,o.size()-pick(o.size()/2+1)); return o; } } }
static void advMain(){ initOcto(); NodeInfo *t=W->nodes[0]; int ns=1+pick(sim_tier()?5:3); 
  for(int k=0;k<ns;k++){ int fd=socket(AF_INET,SOCK_STREAM,0); struct sockaddr_in a; memset(&a,0,sizeof a); a.sin_family=AF_INET; a.sin_port=htons(t->port); a.sin_addr.s_addr=htonl(0x0a000000+atoi(t->host.c_str()+1)); if(::connect(fd,(sockaddr*)&a,sizeof a)){ close(fd); sim_sleep_ns(500*MS); k--; continue; }
    int kind=pick(9); string o=advStream(kind,300+k,50+(coin(0.1)?-50+t->hostid:0)); sim_log("adversary: kind %d, %zu bytes",kind,o.size()); sim_fault_count("alien_peer");
    size_t at=0; while(at<o.size()){ size_t n=coin(0.3)?1+pick(20):o.size()-at; if(n>o.size()-at) n=o.size()-at; ssize_t r=send(fd,o.data()+at,n,MSG_NOSIGNAL); if(r<=0) break; at+=r; if(coin(0.3)) sim_sleep_ns(pick(100)*MS); }
    if(coin(0.3)){ char b[4096]; if(coin(0.5)) recv(fd,b,sizeof b,MSG_DONTWAIT); }
    sim_sleep_ns(pick(3)*pick(2000)*MS); if(coin(0.1)) sim_sleep_ns(35*SEC); close(fd); if(coin(0.5)) sim_sleep_ns(pick(1000)*MS); }
  W->adv_done=true; sim_sleep_ns(100000*SEC); }
static string peerList(){ Thread::Mutex::Lock l(gatewayPeerList.mutex()); string s; const DMI::Record &g=gatewayPeerList; for(DMI::Record::const_iterator it=g.begin();it!=g.end();it++) s+=it.id().toString('.')+" "; return s; }
static void scn_alien(){ mkWorld(2,false,true); netFaults(); startNodes(); waitConnected(200*SEC,"not-connected","after start"); sim_sleep_ns(2*SEC); NodeInfo *t=W->nodes[0]; int base=sim_live_fibers(0), bfd=sim_net_open_conns(0); string pl=peerList();
  if(coin(0.25)) sim_faults.accept_fail=0.1*(1+pick(8)); int adv=sim_node_start("h9",100,W); sim_sleep_ns(pick(800)*MS); W->phase=2; waitSent(); if(!waitFor([]{ return W->adv_done; },600*SEC)) VIOL("alien-stuck","a process that connects to the gateway and sends junk cannot finish: its data is never read and its connection not closed"); 
  sim_calm(); waitDelivered("remote-lost"); u64 t0=sim_now_ns(); (void)t0; sim_sleep_ns(1*SEC);
  if(!waitFor([=]{ return sim_live_fibers(0)<=base; },45*SEC)) VIOL("gateway-leak","%d threads run in the process 45 s after the alien peers have disconnected; %d before they came",sim_live_fibers(0),base);
  if(!waitFor([=]{ return sim_net_open_conns(0)<=bfd; },45*SEC)) VIOL("gateway-leak","%d sockets open in the process 45 s after the alien peers have disconnected; %d before they came",sim_net_open_conns(0),bfd);
  { string p2=peerList(); if(p2!=pl) VIOL("peer-list","the peer list is {%s} after the alien peers have gone; it was {%s}",p2.c_str(),pl.c_str()); }
  for(auto &u:t->up) if(u.second!=t->down[u.first]&&u.first!=peerid(W->nodes[1])) VIOL("up-down","%d Remote.Up but %d Remote.Down for peer %s",u.second,t->down[u.first],u.first.c_str());
  if(!sim_node_alive(1)) VIOL("peer-died","the other process died"); (void)adv;
  W->phase=4; for(auto n:W->nodes) n->sending_done=false; sim_sleep_ns(100*MS); waitSent(); waitDelivered("remote-lost"); stopAll(); sim_pass(); }

// ---- links fail, processes crash and come back
static void restartNode(NodeInfo *n){ NoPreempt np; n->ready=n->stopped=n->stop=false; n->conn.clear(); n->inc++; n->sending_done=true; n->up.clear(); n->down.clear(); n->sim=sim_node_start(n->host.c_str(),n->idx,W); }
static void scn_faults(){ mkWorld(2+pick(sim_tier()?3:2),false,true); netFaults(); startNodes(); if(coin(0.8)) waitConnected(200*SEC,"not-connected","after start"); else sim_sleep_ns(pick(5000)*MS);
  W->phase=3; if(coin(0.25)) sim_faults.accept_fail=0.05*(1+pick(10)); int nf=1+pick(sim_tier()?8:4), crashes=0; map<int,bool> parts; set<pair<string,string>> part;
  for(int k=0;k<nf;k++){ sim_sleep_ns(pick(2)?pick(3000)*MS:pick(40)*MS); NodeInfo *a=W->nodes[pick(W->nodes.size())],*b=W->nodes[pick(W->nodes.size())];
    switch(pick(5)){
      case 0: if(a->host!=b->host) { sim_log("FAULT reset all %s-%s",a->host.c_str(),b->host.c_str()); sim_net_reset_all(a->host.c_str(),b->host.c_str()); } break;
      case 1: { u64 d=pick(3)?pick(5000)*MS:(30+pick(60))*SEC; if(a->host!=b->host){ sim_log("FAULT partition %s-%s for %.3f s",a->host.c_str(),b->host.c_str(),d*1e-9); sim_net_partition(a->host.c_str(),b->host.c_str(),1); sim_sleep_ns(d); sim_net_partition(a->host.c_str(),b->host.c_str(),0); } break; }
      case 2: { string x=a->host,y=b->host; if(x!=y&&coin(0.5)){ sim_log("FAULT random resets"); sim_faults.net_reset=0.002*(1+pick(20)); sim_sleep_ns(pick(4000)*MS); sim_faults.net_reset=0; } break; }
      default: if(a->idx&&crashes<2&&sim_node_alive(a->sim)){ crashes++; sim_log("FAULT crash of node %d",a->idx); sim_node_crash(a->sim); sim_sleep_ns(coin(0.5)?pick(50)*MS:pick(20000)*MS); restartNode(a); } break; } }
  sim_faults.net_reset=sim_faults.accept_fail=0; for(auto n:W->nodes) if(n->idx&&!sim_node_alive(n->sim)) VIOL("peer-died","node %d died",n->idx);
  sim_log("faults over"); waitSent(); sim_calm(); sim_sleep_ns(1*SEC); 
  auto stable=[]{ return allConnected(); }; if(!waitFor(stable,400*SEC)) VIOL("no-reconnect","400 s after the last fault the processes are not all connected:%s",connState().c_str());
  sim_sleep_ns(100*SEC); if(!allConnected()) VIOL("no-reconnect","connections are not stable 100 s after they were re-established:%s",connState().c_str());
  for(auto a:W->nodes) for(auto b:W->nodes) if(a!=b){ string p=peerid(b); int d=a->up[p]-a->down[p]; if(d!=1) VIOL("up-down","node %d: %d Remote.Up and %d Remote.Down for node %d, which is connected",a->idx,a->up[p],a->down[p],b->idx); }
  sim_wild(); W->phase=4; for(auto n:W->nodes) n->sending_done=false; sim_sleep_ns(100*MS); waitSent(); waitDelivered("remote-lost"); 
  if(coin(0.3)){ NodeInfo *a=W->nodes[pick(W->nodes.size())]; for(auto b:W->nodes) if(a->host!=b->host) sim_net_partition(a->host.c_str(),b->host.c_str(),1); W->phase=5; for(auto n:W->nodes) n->sending_done=false; sim_sleep_ns(pick(2000)*MS); sim_log("stop while partitioned"); }
  stopAll(); for(auto r:W->msgs) for(auto &g:r->got) if(g.second!=1) VIOL("remote-duplicate","message %d delivered %d times to WP %d",r->id,g.second,g.first); sim_pass(); }

// ---- whoever connects to whom, one stable connection per pair remains
static void scn_mesh(){ int n=2+pick(sim_tier()?3:2); mkWorld(n,coin(0.5),false); for(auto x:W->nodes) x->proactive=x->unixsrv=true; // as initGateways() does it
  netFaults(); startNodes(); waitConnected(200*SEC,"not-connected","after start"); sim_calm(); sim_sleep_ns(60*SEC); if(!allConnected()) VIOL("unstable","not all connected 60 s after they all were:%s",connState().c_str());
  u64 c0=sim_net_connects(); sim_sleep_ns(60*SEC); u64 c1=sim_net_connects(); if(c1>c0+2) VIOL("reconnect-storm","%llu new connections within 60 s although all processes are connected and no link fails",(unsigned long long)(c1-c0));
  for(auto a:W->nodes){ int want=0; for(auto b:W->nodes) if(a!=b) want++; int have=sim_net_open_conns(a->sim); if(have!=want) VIOL("connection-count","node %d has %d established connections to %d other processes",a->idx,have,want);
    for(auto b:W->nodes) if(a!=b){ string p=peerid(b); int d=a->up[p]-a->down[p]; if(d!=1) VIOL("up-down","node %d: %d Remote.Up and %d Remote.Down for node %d, which is connected",a->idx,a->up[p],a->down[p],b->idx); } }
  if(coin(0.5)){ // a link which was up for a long time breaks for a moment: whoever made the connection makes it again
    int nr=1+pick(3); for(int k=0;k<nr;k++){ NodeInfo *a=W->nodes[pick(n)],*b=W->nodes[pick(n)]; if(a->host==b->host) continue; sim_log("FAULT reset all %s-%s",a->host.c_str(),b->host.c_str()); sim_fault_count("conn_reset"); sim_net_reset_all(a->host.c_str(),b->host.c_str()); sim_sleep_ns(pick(2)*pick(4000)*MS); }
    sim_sleep_ns(SEC); if(!waitFor(allConnected,60*SEC)) VIOL("no-reconnect","60 s after their links were reset the processes are not all connected:%s",connState().c_str()); sim_sleep_ns(20*SEC); if(!allConnected()) VIOL("unstable","not all connected 20 s after they all were:%s",connState().c_str()); }
  sim_wild(); W->phase=4; waitSent(); waitDelivered("remote-lost"); stopAll(); sim_pass(); }
extern "C" void node_main(int role,void *shared){
  if(role>=100){ W=(World*)shared; advMain(); return; }
  if(role){ W=(World*)shared; me=W->nodes[role]; nodeMain(); sim_sleep_ns(3600*SEC); return; }
  threadFaults(); int scn=(int)sim_param("scn",1);
  switch(scn){ case 1: scn_exchange(); break; case 2: scn_alien(); break; case 3: scn_faults(); break; case 4: scn_mesh(); break; }
}
