// Value semantics of DMI objects that are shared between threads (counted references, copy on write, lazy unpacking).
#include "common.h"
#include <DMI/Record.h>
#include <DMI/List.h>
#include <DMI/NumArray.h>
#include <DMI/Vec.h>
#include <DMI/BlockSet.h>
#include <TimBase/Thread.h>
#include <TimBase/Thread/Mutex.h>
#include <TimBase/Thread/Condition.h>
#include <TimBase/Thread/SmartLock.h>
#include <errno.h>
using namespace DMI; using namespace std;
#define VIOL(cls,...) sim_violation(cls,__VA_ARGS__)
static int palive=0;
class PRec : public DMI::Record { public:
  PRec(){ palive++; } PRec(const PRec &o,int fl=0,int d=0):DMI::Record(o,fl,d){ palive++; } ~PRec(){ palive--; }
  virtual CountedRefTarget *clone(int fl=0,int d=0) const { return new PRec(*this,fl,d); } };
enum { K_INT,K_STR,K_ARR,K_REC,K_LIST,K_VEC,K_OVEC };
struct MV { int k=K_INT; long i=0; string s; vector<double> a; vector<int> v; map<int,MV> f; vector<MV> l;
  int depth() const { int d=0; for(auto &x:f) d=max(d,x.second.depth()); for(auto &x:l) d=max(d,x.depth()); return d+1; }
  int weight() const { int d=1; for(auto &x:f) d+=x.second.weight(); for(auto &x:l) d+=x.weight(); return d; } };
static HIID fid(int f){ return HIID(AtomicID(600+f)); }
static MV randMV(int depth){ MV m; int k=pick(depth>0?8:5);
  if(k==0||k==1){ m.k=K_INT; m.i=pick(1000); } else if(k==2){ m.k=K_STR; m.s="s"+to_string(pick(1000)); } else if(k==3){ m.k=K_ARR; int n=1+pick(5); for(int i=0;i<n;i++) m.a.push_back(pick(1000)); }
  else if(k==4){ m.k=K_VEC; int n=2+pick(3); for(int i=0;i<n;i++) m.v.push_back(pick(1000)); }
  else if(k==5){ m.k=K_REC; int n=pick(4); for(int i=0;i<n;i++) m.f[pick(6)]=randMV(depth-1); }
  else if(k==7){ m.k=K_OVEC; int n=1+pick(3); for(int i=0;i<n;i++){ MV e; e.k=K_ARR; int q=1+pick(3); for(int j=0;j<q;j++) e.a.push_back(pick(1000)); m.l.push_back(e); } }
  else { m.k=K_LIST; int n=pick(4); for(int i=0;i<n;i++) m.l.push_back(randMV(depth-1)); }
  return m; }
static void fillRec(DMI::Record &r,const MV &m);
static ObjRef mkObj(const MV &m){ switch(m.k){
    case K_ARR: { NumArray *a=new NumArray(Tpdouble,LoShape(int(m.a.size()))); ObjRef r(a); for(size_t i=0;i<m.a.size();i++) (*a)[i]=m.a[i]; return r; }
    case K_REC: { PRec *p=new PRec; ObjRef r(p); fillRec(*p,m); return r; }
    case K_LIST: { DMI::List *p=new DMI::List; ObjRef r(p); for(auto &x:m.l){ ObjRef o=mkObj(x); p->addBack(o); } return r; }
    case K_OVEC: { Vec *v=new Vec(TpDMINumArray,m.l.size()); ObjRef r(v); for(size_t i=0;i<m.l.size();i++){ ObjRef o=mkObj(m.l[i]); v->put(i,o); } return r; }
    case K_INT: { Vec *v=new Vec(Tpint,-1); ObjRef r(v); (*v)[HIID()]=int(m.i); return r; }
    case K_STR: { Vec *v=new Vec(Tpstring,-1); ObjRef r(v); (*v)[HIID()]=m.s; return r; }
    default: { Vec *v=new Vec(Tpint,m.v.size()); ObjRef r(v); for(size_t i=0;i<m.v.size();i++) (*v)[i]=m.v[i]; return r; } } }
static void putField(DMI::Record &r,int f,const MV &m){ HIID id=fid(f);
  if(m.k==K_INT) r[id].replace()=int(m.i); else if(m.k==K_STR) r[id].replace()=m.s; else { ObjRef o=mkObj(m); r[id].replace()=o; } }
static void fillRec(DMI::Record &r,const MV &m){ for(auto &x:m.f) putField(r,x.first,x.second); }
//--- comparison
static string cur;
static void cmpObj(const BObj &o,const MV &m,const string &path);
static void cmpRec(const DMI::Record &r,const MV &m,const string &path){
  if(r.size()!=(int)m.f.size()) VIOL("wrong-content","%s: record has %d fields instead of %zu",path.c_str(),r.size(),m.f.size());
  for(auto &x:m.f){ ObjRef o=r.get(fid(x.first),true); if(!o.valid()) VIOL("wrong-content","%s: field %d is missing",path.c_str(),x.first); cmpObj(*o,x.second,path+"."+to_string(x.first)); } }
static void cmpObj(const BObj &o,const MV &m,const string &path){ const char *p=path.c_str();
  const DMI::Container *c=dynamic_cast<const DMI::Container*>(&o); if(!c) VIOL("wrong-content","%s: not a container",p);
  switch(m.k){
    case K_INT: { if(!dynamic_cast<const Vec*>(&o)||c->type()!=Tpint) VIOL("wrong-content","%s: not an int but %s",p,o.objectType().toString().c_str()); int v=(*c)[HIID()].as<int>(); if(v!=m.i) VIOL("wrong-content","%s: %d instead of %ld",p,v,m.i); break; }
    case K_STR: { if(!dynamic_cast<const Vec*>(&o)||c->type()!=Tpstring) VIOL("wrong-content","%s: not a string",p); string v=(*c)[HIID()].as<string>(); if(v!=m.s) VIOL("wrong-content","%s: '%s' instead of '%s'",p,v.c_str(),m.s.c_str()); break; }
    case K_ARR: { const NumArray *a=dynamic_cast<const NumArray*>(&o); if(!a||a->elementType()!=Tpdouble||a->size()!=(int)m.a.size()) VIOL("wrong-content","%s: not an array of %zu",p,m.a.size()); for(size_t i=0;i<m.a.size();i++){ double v=(*a)[i].as<double>(); if(v!=m.a[i]) VIOL("wrong-content","%s[%zu]: %g instead of %g",p,i,v,m.a[i]); } break; }
    case K_VEC: { const Vec *a=dynamic_cast<const Vec*>(&o); if(!a||c->type()!=Tpint||c->size()!=(int)m.v.size()) VIOL("wrong-content","%s: not a vector of %zu",p,m.v.size()); for(size_t i=0;i<m.v.size();i++){ int v=(*a)[i].as<int>(); if(v!=m.v[i]) VIOL("wrong-content","%s[%zu]: %d instead of %d",p,i,v,m.v[i]); } break; }
    case K_OVEC: { const Vec *a=dynamic_cast<const Vec*>(&o); if(!a||a->type()!=TpDMINumArray||a->mysize()!=(int)m.l.size()) VIOL("wrong-content","%s: not a vector of %zu arrays",p,m.l.size()); for(size_t i=0;i<m.l.size();i++){ ObjRef x=a->getObj(i); if(!x.valid()) VIOL("wrong-content","%s[%zu] is missing",p,i); cmpObj(*x,m.l[i],path+"["+to_string(i)+"]"); } break; }
    case K_REC: { const DMI::Record *r=dynamic_cast<const DMI::Record*>(&o); if(!r) VIOL("wrong-content","%s: not a record",p); cmpRec(*r,m,path); break; }
    case K_LIST: { const DMI::List *l=dynamic_cast<const DMI::List*>(&o); if(!l||l->numItems()!=(int)m.l.size()) VIOL("wrong-content","%s: not a list of %zu",p,m.l.size()); for(size_t i=0;i<m.l.size();i++){ ObjRef x=l->get(i); cmpObj(*x,m.l[i],path+"["+to_string(i)+"]"); } break; }
  } }
//--- slots
struct Slot { Record::Ref ref; MV m; bool full=false; };
static void check(const Slot &s,const char *what){ if(s.full!=s.ref.valid()) VIOL("wrong-content","%s: reference is %s",what,s.ref.valid()?"valid":"invalid"); if(s.full) cmpRec(*s.ref,s.m,what); }
static const int MAXW=60;
static void fresh(Slot &s){ MV m; m.k=K_REC; int n=1+pick(4); for(int i=0;i<n;i++) m.f[pick(6)]=randMV(2); PRec *p=new PRec; s.ref.detach(); s.ref<<=p; fillRec(s.ref(),m); s.m=m; s.full=true; }
static Thread::Mutex *boxmx; static Slot box[3]; static Slot pool[2]; static Slot common_; 
// a random path of record fields that exists in the model, ending in a record
static void randPath(const MV &m,vector<int> &p,int max){ if(max==0||coin(0.3)) return; vector<int> c; for(auto &x:m.f) if(x.second.k==K_REC) c.push_back(x.first); if(c.empty()) return; int f=c[pick(c.size())]; p.push_back(f); randPath(m.f.at(f),p,max-1); }
static MV &at(MV &m,const vector<int> &p){ MV *x=&m; for(int f:p) x=&x->f.at(f); return *x; }
template<class F> static void withHook(Slot &s,const vector<int> &p,int f,F fn){ // the whole chain is one expression, as in ordinary code
  switch(p.size()){ case 0: fn(s.ref()[fid(f)]); break; case 1: fn(s.ref()[fid(p[0])][fid(f)]); break; case 2: fn(s.ref()[fid(p[0])][fid(p[1])][fid(f)]); break; default: fn(s.ref()[fid(p[0])][fid(p[1])][fid(p[2])][fid(f)]); } }
static void touch(Slot &s){ vector<int> p; randPath(s.m,p,3); MV &r=at(s.m,p); if(r.f.empty()) return; int skip=pick(r.f.size()); for(auto &x:r.f) if(skip-->0) continue; else if(x.second.k==K_ARR||x.second.k==K_VEC){ int n=x.second.k==K_ARR?x.second.a.size():x.second.v.size(); int i=pick(n),v=pick(1000); sim_probe("write element");
          if(x.second.k==K_ARR){ withHook(s,p,x.first,[&](const DMI::Container::Hook &h){ h[i]=double(v); }); x.second.a[i]=v; } else { withHook(s,p,x.first,[&](const DMI::Container::Hook &h){ h[i]=v; }); x.second.v[i]=v; } break; }
        else if(x.second.k==K_OVEC){ int n=x.second.l.size(),i=pick(n); MV &e=x.second.l[i]; sim_probe("object vector"); if(coin(0.5)){ int j=pick(e.a.size()),v=pick(1000); withHook(s,p,x.first,[&](const DMI::Container::Hook &h){ h[i][j]=double(v); }); e.a[j]=v; }
            else { MV ne; ne.k=K_ARR; ne.a.push_back(pick(1000)); ObjRef o=mkObj(ne); Vec *pv=0; withHook(s,p,x.first,[&](const DMI::Container::Hook &h){ pv=&h.as_wr<Vec>(); }); pv->put(i,o,DMI::REPLACE); e=ne; } break; }
        else if(x.second.k==K_INT){ int v=pick(1000); withHook(s,p,x.first,[&](const DMI::Container::Hook &h){ h=v; }); x.second.i=v; break; } }
static void oneOp(Slot *sl,int ns,int me){
  Slot &s=sl[pick(ns)]; int op=pick(23);
  if(!s.full&&op!=9&&op!=8&&op!=11&&op!=12){ fresh(s); return; }
  switch(op){
    case 0: case 1: { vector<int> p; randPath(s.m,p,3); int f=pick(6); MV v=randMV(1); if(s.m.weight()>MAXW) return; sim_probe("write field");
      if(v.k==K_INT) withHook(s,p,f,[&](const DMI::Container::Hook &h){ h.replace()=int(v.i); }); else if(v.k==K_STR) withHook(s,p,f,[&](const DMI::Container::Hook &h){ h.replace()=v.s; });
      else { ObjRef o=mkObj(v); withHook(s,p,f,[&](const DMI::Container::Hook &h){ h.replace()=o; }); }
      at(s.m,p).f[f]=v; break; }
    case 2: case 3: touch(s); break;
    case 4: { vector<int> p; randPath(s.m,p,3); MV &r=at(s.m,p); if(r.f.empty()) return; auto it=r.f.begin(); advance(it,pick(r.f.size())); sim_probe("remove"); withHook(s,p,it->first,[&](const DMI::Container::Hook &h){ h.remove(); }); r.f.erase(it); break; }
    case 5: { Slot &o=sl[pick(ns)]; if(!o.full||&o==&s) return; vector<int> p; randPath(s.m,p,2); if(o.m.depth()>2||s.m.weight()+o.m.weight()>MAXW) return; int f=pick(6); sim_probe("nest"); ObjRef c(o.ref); withHook(s,p,f,[&](const DMI::Container::Hook &h){ h.replace()=c; }); at(s.m,p).f[f]=o.m; break; }
    case 6: { Slot &o=sl[pick(ns)]; if(&o==&s) return; vector<int> p; randPath(s.m,p,3); if(p.empty()) return; sim_probe("take nested"); const DMI::Record *r=s.ref.deref_p(); ObjRef x; for(size_t i=0;i<p.size();i++){ x=r->get(fid(p[i])); r=dynamic_cast<const DMI::Record*>(x.deref_p()); if(!r) VIOL("wrong-content","nested record is not a record"); }
      MV m=at(s.m,p); o.ref.detach(); o.ref=x.ref_cast<DMI::Record>(); o.m=m; o.full=true; if(coin(0.5)){ s.ref.detach(); s.full=false; } break; }
    case 7: { Slot &o=sl[pick(ns)]; if(&o==&s) return; if(coin(0.6)){ sim_probe("copy"); o.ref=s.ref; o.m=s.m; o.full=true; } else { sim_probe("xfer"); o.ref.detach(); o.ref.xfer(s.ref); o.m=s.m; o.full=true; s.full=false; s.m=MV(); } break; }
    case 8: { if(!s.full) return; Thread::Mutex::Lock l(*boxmx); Slot &b=box[pick(3)]; sim_probe("post"); if(coin(0.7)){ b.ref=s.ref; b.m=s.m; b.full=true; } else { b.ref.detach(); b.ref.xfer(s.ref); b.m=s.m; b.full=true; s.full=false; } break; }
    case 9: { Thread::Mutex::Lock l(*boxmx); Slot &b=box[pick(3)]; if(!b.full) return; sim_probe("fetch"); if(coin(0.7)){ s.ref=b.ref; s.m=b.m; s.full=true; } else { s.ref.detach(); s.ref.xfer(b.ref); s.m=b.m; s.full=true; b.full=false; } break; }
    case 10: check(s,"slot"); break;
    case 11: { int k=pick(2); { Thread::Mutex::Lock l(*boxmx); s.ref=pool[k].ref; } s.m=pool[k].m; s.full=true; sim_probe("pool"); if(coin(0.5)) check(s,"pool copy"); break; }
    case 12: { int k=pick(2); Record::Ref r; { Thread::Mutex::Lock l(*boxmx); r=pool[k].ref; } int w=pick(3); if(w==0) cmpRec(*r,pool[k].m,"pool"); else { sim_probe("pack pool"); BlockSet set; r->toBlock(set); if(w==1){ Record::Ref nr; nr<<=new PRec; nr().fromBlock(set); Thread::Mutex::Lock l(*boxmx); pool[k].ref=nr; } else { Record::Ref nr; nr<<=new PRec; nr().fromBlock(set); cmpRec(*nr,pool[k].m,"packed pool"); } } break; }
    case 20: { // write through a lazily unpacked copy
      BlockSet set; s.ref->toBlock(set); Record::Ref nr; nr<<=new PRec; nr().fromBlock(set); s.ref=nr; int n=pick(4); for(int i=0;i<n;i++) touch(s); break; }
    case 21: touch(s); break;
    case 13: { sim_probe("privatize"); s.ref.privatize(coin(0.5)?DMI::DEEP:0); break; }
    case 14: case 15: case 19: { sim_probe("pack"); BlockSet set; int n=s.ref->toBlock(set); if(n!=(int)set.size()) VIOL("wrong-content","toBlock() said %d blocks, made %zu",n,(size_t)set.size()); Slot &o=sl[pick(ns)]; MV m=s.m; BlockSet set2; bool two=coin(0.5); if(two) set.copyAll(set2);
      { Record::Ref nr; nr<<=new PRec; nr().fromBlock(set); if(set.size()) VIOL("wrong-content","%zu blocks left over",(size_t)set.size()); o.ref.detach(); o.ref=nr; o.m=m; o.full=true; }
      if(two){ Thread::Mutex::Lock l(*boxmx); int b=pick(3); Record::Ref nr; nr<<=new PRec; nr().fromBlock(set2); box[b].ref.detach(); box[b].ref=nr; box[b].m=m; box[b].full=true; } break; }
    case 16: { vector<int> p; randPath(s.m,p,2); MV &r=at(s.m,p); for(auto &x:r.f) if(x.second.k==K_LIST){ if(s.m.weight()>MAXW) return; MV v=randMV(0); int w=pick(3); sim_probe("list"); DMI::List *pl=0;
          withHook(s,p,x.first,[&](const DMI::Container::Hook &h){ pl=&h.as_wr<DMI::List>(); }); auto &ml=x.second.l;
          if(w==0||ml.empty()){ ObjRef o=mkObj(v); pl->addBack(o); ml.push_back(v); } else if(w==1){ int i=pick(ml.size()); ObjRef o=mkObj(v); pl->replace(i,o); ml[i]=v; } else { int i=pick(ml.size()); pl->remove(i); ml.erase(ml.begin()+i); } break; } break; }
    case 17: { vector<int> p; randPath(s.m,p,2); MV &r=at(s.m,p); if(s.m.weight()>MAXW) return; DMI::Record *pr=&s.ref(); for(int f:p) pr=&(*pr)[fid(f)].as_wr<DMI::Record>(); MV add; add.k=K_REC; int n=1+pick(2); for(int i=0;i<n;i++) add.f[pick(6)]=randMV(0); PRec o; fillRec(o,add); bool ow=coin(0.5); sim_probe("merge"); pr->merge(o,ow); for(auto &x:add.f) if(ow||!r.f.count(x.first)) r.f[x.first]=x.second; break; }
    case 18: { sim_probe("release"); s.ref.detach(); s.full=false; break; }
    default: { MV m=s.m; Record::Ref c(s.ref); sim_probe("held copy"); int k=pick(3); for(int i=0;i<k;i++) oneOp(sl,ns,me); cmpRec(*c,m,"held copy"); break; } }
  sim_state(mixh(op,mixh(s.m.weight(),s.m.depth()))); }
static int nlive=0;
static void scn_values(){
  Debug::setLevel("",0); boxmx=new Thread::Mutex; palive=0;
  for(int i=0;i<2;i++){ fresh(pool[i]); if(coin(0.5)){ BlockSet set; pool[i].ref->toBlock(set); Record::Ref nr; nr<<=new PRec; nr().fromBlock(set); pool[i].ref=nr; } }
  int nt=1+pick(4), nops=(sim_tier()?90:50);
  nlive=nt; for(int t=0;t<nt;t++) spawn("worker",[=]{ Slot *sl=new Slot[3]; int n=1+pick(nops); bool last=coin(0.5);
    try { for(int i=0;i<n;i++) oneOp(sl,3,t); for(int i=0;i<3;i++) check(sl[i],"slot at the end"); } catch(std::exception &e){ VIOL("exception","thread %d: %s",t,e.what()); }
    (void)last; delete[] sl; nlive--; });
  if(!waitFor([]{ return nlive==0; },600*SEC)) VIOL("stuck","threads did not end");
  for(int i=0;i<3;i++) check(box[i],"box"); for(int i=0;i<2;i++) check(pool[i],"pool at the end");
  for(int i=0;i<3;i++) box[i].ref.detach(); for(int i=0;i<2;i++) pool[i].ref.detach();
  if(palive) VIOL("leak","%d records are still alive although nothing refers to them",palive);
  sim_pass(); }

//------------------------------------------------------------ thread primitives
struct RW { Thread::SmartLock lk; Thread::Mutex upg; int r=0,w=0; int wfib=-1; long val=0; };
static RW *rw; static int plive=0;
static void dwell(){ if(coin(0.5)) sim_sleep_ns(pick(3000)*1000); else if(coin(0.5)) sim_yield(); }
static void rin(RW &l,const char *how){ if(l.w&&l.wfib!=sim_self()) VIOL("not-exclusive","%s: a reader was let in while another thread is writing",how); l.r++; long v=l.val; dwell(); if(l.w&&l.wfib!=sim_self()) VIOL("not-exclusive","%s: a writer was let in while a thread is reading",how); if(v!=l.val) VIOL("not-exclusive","%s: the data changed under a read lock",how); }
static void rout(RW &l){ l.r--; }
static void win(RW &l,const char *how,int myreads=0){ if((l.w&&l.wfib!=sim_self())||l.r>myreads) VIOL("not-exclusive","%s: a writer was let in while there are %d readers and %d writers",how,l.r,l.w); l.w++; l.wfib=sim_self(); long v=++l.val; dwell(); if(l.val!=v||l.wfib!=sim_self()) VIOL("not-exclusive","%s: somebody else wrote during a write lock",how); }
static void wout(RW &l){ if(!--l.w) l.wfib=-1; }
static void rwOp(){
  RW &l=rw[pick(2)];
  switch(pick(9)){
    case 0: { sim_probe("read"); Thread::SmartLock::Read k(l.lk); rin(l,"Read"); rout(l); break; }
    case 1: { sim_probe("write"); Thread::SmartLock::Write k(l.lk); win(l,"Write"); wout(l); break; }
    case 2: { sim_probe("nested"); Thread::SmartLock::Write k(l.lk); win(l,"Write"); { Thread::SmartLock::Write k2(l.lk); win(l,"nested Write"); wout(l); } if(coin(0.5)){ Thread::SmartLock::Read k3(l.lk); rin(l,"Read within Write"); rout(l); } win(l,"Write after nesting"); wout(l); wout(l); break; }
    case 3: { sim_probe("upgrade"); Thread::Mutex::Lock tok(l.upg,Thread::Mutex::TRY); if(!tok.locked()) return; Thread::SmartLock::Lock k(l.lk,false); rin(l,"Lock/R"); k.relock(true); rout(l); win(l,"upgraded Lock"); wout(l); if(coin(0.5)){ k.relock(false); rin(l,"downgraded Lock"); rout(l); } break; }
    case 4: { sim_probe("downgrade"); Thread::SmartLock::Lock k(l.lk,true); win(l,"Lock/W"); wout(l);
      int in=-1; if(coin(0.3)){ sim_probe("shared read"); in=0; RW *pl=&l; spawn("reader",[&in,pl]{ Thread::SmartLock::Read k2(pl->lk); rin(*pl,"Read"); rout(*pl); in=1; }); dwell(); }   // a reader waiting for the downgrade must then be let in
      long v=l.val; k.relock(false); if(v!=l.val) VIOL("not-exclusive","somebody wrote while a write lock was downgraded"); rin(l,"downgraded Lock");
      if(in>=0){ if(!waitFor([&]{ return in!=0; },600*SEC)) VIOL("stuck","a reader is not let in although the lock is held for reading only"); }
      rout(l); break; }
    case 5: { sim_probe("relock"); Thread::SmartLock::Read k(rw[0].lk); rin(rw[0],"Read"); rout(rw[0]); k.relock(rw[1].lk); rin(rw[1],"relocked Read"); rout(rw[1]); break; }
    case 6: { sim_probe("relock w"); Thread::SmartLock::Write k(rw[0].lk); win(rw[0],"Write"); wout(rw[0]); k.relock(rw[1].lk); win(rw[1],"relocked Write"); wout(rw[1]); break; }
    case 7: { sim_probe("copied"); Thread::SmartLock::Read *k=new Thread::SmartLock::Read(l.lk); rin(l,"Read"); Thread::SmartLock::Read k2(*k); delete k; rout(l); rin(l,"copied Read"); rout(l); k2.release(); break; }
    default: { sim_probe("lock"); bool wr=coin(0.5); Thread::SmartLock::Lock k(l.lk,wr); if(wr){ win(l,"Lock"); wout(l); } else { rin(l,"Lock"); rout(l); } k.release(); dwell(); } } }
static Thread::Mutex *mx; static int mxin=0,mxfib=-1,mxdepth=0;
static void mxEnter(const char *how){ if(mxin&&mxfib!=sim_self()) VIOL("not-exclusive","%s: two threads hold the mutex",how); mxin++; mxfib=sim_self(); dwell(); if(mxfib!=sim_self()) VIOL("not-exclusive","%s: another thread got the mutex meanwhile",how); }
static void mxLeave(){ mxin--; }
static Thread::Mutex *mx2; static int m2in=0,m2fib=-1;
static void m2Enter(const char *how){ if(m2in&&m2fib!=sim_self()) VIOL("not-exclusive","%s: two threads hold the second mutex",how); m2in++; m2fib=sim_self(); dwell(); if(m2fib!=sim_self()) VIOL("not-exclusive","%s: another thread got the second mutex meanwhile",how); }
static void mutexOp(){ switch(pick(8)){
    case 5: { sim_probe("relock to another"); Thread::Mutex::Lock k(*mx); mxEnter("Lock"); mxLeave(); k.relock(*mx2); m2Enter("relocked"); m2in--; break; }   // always mx before mx2: no deadlock by lock order
    case 6: { sim_probe("lock another"); Thread::Mutex::Lock k(*mx2); m2Enter("Lock"); m2in--; k.lock(*mx); mxEnter("locked another"); mxLeave(); break; }
    case 7: { sim_probe("assign"); Thread::Mutex::Lock a(*mx); Thread::Mutex::Lock b(*mx2); m2Enter("Lock"); m2in--; mxEnter("Lock"); mxLeave(); a=b; m2Enter("assigned Lock"); m2in--; break; }
    case 0: { Thread::Mutex::Lock k(*mx); mxEnter("Lock"); if(coin(0.3)){ Thread::Mutex::Lock k2(*mx); mxEnter("recursive Lock"); mxLeave(); } mxEnter("Lock"); mxLeave(); mxLeave(); break; }
    case 1: { sim_probe("try"); Thread::Mutex::Lock k(*mx,Thread::Mutex::TRY); if(k.locked()){ mxEnter("try Lock"); mxLeave(); } else { sim_probe("try failed"); if(mxin&&mxfib==sim_self()) VIOL("try-failed","a recursive try-lock failed"); } break; }
    case 2: { Thread::Mutex::Lock k(*mx); mxEnter("Lock"); mxLeave(); k.release(); dwell(); k.lock(*mx); mxEnter("locked again"); mxLeave(); k.relock(*mx); mxEnter("relocked"); mxLeave(); break; }
    case 3: { Thread::Mutex::Lock *k=new Thread::Mutex::Lock(*mx); mxEnter("Lock"); Thread::Mutex::Lock k2(*k); delete k; mxEnter("copied Lock"); mxLeave(); mxLeave(); break; }
    default: { mx->lock(); mxEnter("lock()"); mxLeave(); mx->unlock(); } } }
static Thread::Condition *cq; static deque<int> cdata; static int cprod=0,ccons=0,cprodLive=0; static set<int> cgot; static u64 lastPut=0;
static void condProducer(int n){ for(int i=0;i<n;i++){ dwell(); if(coin(0.3)) sim_sleep_ns(pick(1500)*MS); Thread::Mutex::Lock k(*cq); cdata.push_back(cprod++); lastPut=sim_now_ns(); if(coin(0.5)) cq->signal(); else cq->broadcast(); } Thread::Mutex::Lock k(*cq); cprodLive--; cq->broadcast(); }
static void condConsumer(){ Thread::Mutex::Lock k(*cq); 
  for(;;){ while(cdata.empty()){ if(!cprodLive) return; int kind=pick(3); u64 t0=sim_now_ns();
      if(kind==0){ int r=cq->wait(); if(r) VIOL("wait-failed","wait() returned %d",r); }
      else { double sec=0.001*(1+pick(2500)); int r; if(kind==1) r=cq->wait(sec); else r=cq->wait((int)sec,(int)((sec-(int)sec)*1e9)); u64 el=sim_now_ns()-t0; sim_probe("timed wait");
        if(r==ETIMEDOUT){ sim_probe("timed out"); if(el+2000<(u64)(sec*1e9)) VIOL("wait-early","a wait for %g s timed out after %g s",sec,el*1e-9); }
        else if(r) VIOL("wait-failed","wait(%g) returned %d (%s) after %g s",sec,r,strerror(r),el*1e-9);
        if(el>(u64)(sec*1e9)+SEC&&!sim_faults.stall) VIOL("wait-late","a wait for %g s lasted %g s",sec,el*1e-9); } }
    int v=cdata.front(); cdata.pop_front(); if(!cgot.insert(v).second) VIOL("not-exclusive","item %d was taken twice",v); ccons++; if(coin(0.3)){ k.release(); dwell(); k.lock(*cq); } } }
static void scn_prims(){
  Debug::setLevel("",0); rw=new RW[2]; mx=new Thread::Mutex; mx2=new Thread::Mutex; cq=new Thread::Condition; int nt=2+pick(4),nops=sim_tier()?20:10; int what=pick(3);
  plive=nt; if(what==2){ int np=1+pick(2); cprodLive=np; if(nt<=np) nt=plive=np+1; for(int t=0;t<nt;t++) spawn("worker",[=]{ if(t<np) condProducer(1+pick(8)); else condConsumer(); plive--; }); }
  else for(int t=0;t<nt;t++) spawn("worker",[=]{ int n=1+pick(nops); for(int i=0;i<n;i++){ if(what==0) rwOp(); else mutexOp(); if(coin(0.3)) dwell(); } plive--; });
  if(!waitFor([]{ return plive==0; },300*SEC)) VIOL("stuck","%d threads wait for ever for a lock or condition (%s)",plive,what==0?"SmartLock":what==1?"Mutex":"Condition");
  if(what==2&&ccons!=cprod) VIOL("stuck","%d items of %d were taken",ccons,cprod);
  if(what==0) for(int i=0;i<2;i++){ if(rw[i].r||rw[i].w) VIOL("harness","count"); Thread::SmartLock::Write k(rw[i].lk); win(rw[i],"final Write"); wout(rw[i]); }
  sim_state(mixh(what,mixh(nt,ccons))); sim_pass(); }
extern "C" void node_main(int,void*){ threadFaults(); switch((int)sim_param("scn",1)){ case 2: scn_prims(); break; default: scn_values(); } }
