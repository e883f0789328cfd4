// Tables of parameters (FastParmTable, ParmTableUtils, with the real QDBM library) on a simulated disk:
// 1: histories with crashes   2: failing disks   3: several processes that share a table
#include "common.h"
#include <MEQ/FastParmTable.h>
#include <MEQ/Polc.h>
#include <MEQ/Domain.h>
#include <MeqNodes/ParmTableUtils.h>
#include <DMI/Exception.h>
#include <DMI/DynamicTypeManager.h>
#include <algorithm>
using namespace Meq; using std::string; using std::vector; using std::map; using std::set; using DMI::exceptionToString;
#define VIOL(cls,...) sim_violation(cls,__VA_ARGS__)
int aidRegistry_MeqNodes(){ return 0; }
int aidRegistry_Meq();
// the other kind of table (casacore) is not simulated
extern "C" void casa_ctor(void*,const string&,bool) __asm__("_ZN3Meq13CasaParmTableC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEb"); extern "C" void casa_ctor(void*,const string&,bool){ abort(); }

static const char *HOST="h1";
struct Key { int flying=0; bool torn=false; set<int> possible; int last=0; vector<int> all; Key(){ possible.insert(0); } }; // the versions that may be in the table (0: none), the last one used, all of them
struct World { int nname=0,ndom=0; vector<vector<Key>> k; vector<vector<double>> dom; int mode=0; bool faults=false; int plan=0; int nthreads=1; int nops=0; long ops=0; bool done=false; bool dirty=false; bool threw=false; bool utils=false; bool reopen=true; int first=0,step=1; int resets=0; int ends=0; vector<string> errs; int nclean=0; double re=0; };
static World *W;
static string nameOf(int i){ return i%3==0?"p"+std::to_string(i):i%3==1?string("Gain:")+string(i,'x')+":xy":string(1,'a'+i); }
static Domain *mkDom(int j){ auto &d=W->dom[j]; Domain *r=new Domain; if(d[0]<d[1]) r->defineAxis(0,d[0],d[1]); if(d[2]<d[3]) r->defineAxis(1,d[2],d[3]); return r; }
static bool overlap(int a,int b){ auto &x=W->dom[a],&y=W->dom[b]; for(int i=0;i<4;i+=2) if(x[i]<x[i+1]&&y[i]<y[i+1]&&(x[i]>=y[i+1]||x[i+1]<=y[i])) return false; return true; }
static int domOf(const Domain &d){ for(int j=0;j<W->ndom;j++){ auto &w=W->dom[j]; bool ok=true; for(int a=0;a<Axis::MaxAxis;a++){ bool def=a<2&&w[2*a]<w[2*a+1]; if(d.isDefined(a)!=def||(def&&(d.start(a)!=w[2*a]||d.end(a)!=w[2*a+1]))) ok=false; } if(ok) return j; } return -1; }
static double code(int i,int j,int v){ return i*1e9+j*1e6+v; }
static bool poly(int i,int j,int v){ return (i+j*3+v*7)%5<2; }
static Funklet *mkFunk(int i,int j,int v){ Polc *p; if(poly(i,j,v)){ LoMat_double m(2,3); for(int x=0;x<2;x++) for(int y=0;y<3;y++) m(x,y)=code(i,j,v)+(x*3+y)*0.125; p=new Polc(m); } else p=new Polc(code(i,j,v),defaultPolcPerturbation,defaultPolcWeight,-1); Domain::Ref d(mkDom(j),DMI::ANON); p->setDomain(*d); return p; }
static string keyStr(int i,int j){ return "'"+nameOf(i)+"' domain "+std::to_string(j); }
static string setStr(const set<int> &s){ string r; for(int x:s) r+=(r.empty()?"":",")+(x?std::to_string(x):string("none")); return r; }
// what a funklet from the table is: its domain and version
// A funklet that is being replaced by one of another size while the process is killed is torn by the library (known finding)
static bool torn(int i){ if(i<0||i>=W->nname) { for(int x=0;x<W->nname;x++) if(torn(x)) return true; return false; } for(auto &k:W->k[i]) if(k.torn) return true; return false; }
#define VIOLK(i,cls,fmt,...) do { if(torn(i)) sim_violation("torn-overwrite","a funklet that was being replaced by one of another size during a crash is damaged: " fmt,__VA_ARGS__); else sim_violation(cls,fmt,__VA_ARGS__); } while(0)
static bool broken(){ return W->faults&&W->threw; } // a table on which an operation failed: nothing is known about it any more
static void decode(const Funklet &f,int i,int &j,int &v,const char *where){ double c=f.getCoeff0(); int ci=(int)(c/1e9); int cj=(int)((c-ci*1e9)/1e6); v=(int)(c-ci*1e9-cj*1e6); 
  j=domOf(f.domain()); if(ci!=i) VIOLK(i,"wrong-name","%s: '%s' has the coefficients of '%s'",where,nameOf(i).c_str(),ci>=0&&ci<W->nname?nameOf(ci).c_str():"?"); if(cj<0||cj>=W->ndom||v<=0||v>W->k[i][cj].last) VIOLK(i,"made-up","%s: %s: coefficient %.17g was never stored",where,nameOf(i).c_str(),c);
  if(j!=cj) VIOLK(i,"wrong-domain","%s: '%s' version %d was stored for domain %d, and comes back for domain %d",where,nameOf(i).c_str(),v,cj,j); 
  if(poly(i,j,v)){ const Polc *p=dynamic_cast<const Polc*>(&f); if(!p||p->getCoeffShape().size()!=2||p->getCoeffShape()[0]!=2||p->getCoeffShape()[1]!=3) VIOLK(i,"wrong-shape","%s: %s version %d has changed its shape",where,keyStr(i,j).c_str(),v); const double *d=static_cast<const double*>(p->coeff().getConstDataPtr()); for(int x=0;x<6;x++) if(d[x]!=code(i,j,v)+x*0.125) VIOLK(i,"wrong-coeff","%s: %s version %d: coefficient %d is %.17g",where,keyStr(i,j).c_str(),v,x,d[x]); } 
  else { const Polc *p=dynamic_cast<const Polc*>(&f); if(!p||!p->isConstant()) VIOLK(i,"wrong-shape","%s: %s version %d is not a constant any more",where,keyStr(i,j).c_str(),v); } }
enum { GET_OWN=1, GET_FINAL=2 };
// reads a parameter for a domain and checks everything that is returned
static void checkGet(ParmTable &t,int i,int jreq,int how,const char *where,vector<Funklet::Ref> *out=0){ vector<Funklet::Ref> fs; map<int,set<int>> before; map<int,int> last; if(broken()){ Domain::Ref dr(mkDom(jreq),DMI::ANON); if(!t.getFunklets(fs,nameOf(i),*dr)) fs.clear(); return; } for(int j=0;j<W->ndom;j++){ before[j]=W->k[i][j].possible; last[j]=W->k[i][j].last; }
  Domain::Ref dr(mkDom(jreq),DMI::ANON); int n=t.getFunklets(fs,nameOf(i),*dr); if(n==0) fs.clear(); if(broken()) return; if(n!=(int)fs.size()) VIOL("bad-count","%s: %d funklets returned, %zu in the list",where,n,fs.size()); map<int,int> got;
  for(auto &f:fs){ if(!f.valid()) VIOL("bad-count","%s: no funklet in place %d of %d",where,(int)got.size(),n); int j,v; decode(*f,i,j,v,where); if(got.count(j)) VIOL("duplicate","%s: %s is returned twice",where,keyStr(i,j).c_str()); if(!overlap(j,jreq)) VIOL("wrong-domain","%s: domain %d asked for, domain %d returned, which does not overlap",where,jreq,j); got[j]=v; }
  if(how==GET_OWN) for(int j=0;j<W->ndom;j++) if(overlap(j,jreq)){ int v=got.count(j)?got[j]:0; bool ok=before[j].count(v); if(!ok&&v>last[j]) ok=true; if(!ok) VIOL(v?"stale":"lost","%s: %s has version %d, it should be %s",where,keyStr(i,j).c_str(),v,setStr(before[j]).c_str()); } 
  if(out) *out=fs; }
static void putOne(ParmTable &t,int i,int j,Funklet::Ref *with=0){ Key &k=W->k[i][j]; int v=++k.last; Funklet::Ref f(mkFunk(i,j,v),DMI::ANONWR); if(with&&with->valid()) f().setDbId((*with)->getDbId()); k.possible.insert(v); bool resize=false; for(int o:k.possible) if(o&&poly(i,j,o)!=poly(i,j,v)) resize=true; if(resize) k.flying++; W->dirty=true; sim_log("put %s version %d%s",keyStr(i,j).c_str(),v,poly(i,j,v)?" (poly)":""); try { t.putCoeff1(nameOf(i),f(),coin(0.3)); } catch(...){ throw; } if(resize) k.flying--; k.possible.clear(); k.possible.insert(v); }
static void worker(){ int fam=W->plan; ParmTable *tab=0; bool own_obj=!W->utils; int me=W->first; bool ok=true; vector<int> mine; for(int i=W->first;i<W->nname;i+=W->step) mine.push_back(i); (void)fam; if(mine.empty()) mine.push_back(W->first%W->nname);
  bool strict=!W->faults; int step=W->step, nth=W->nthreads, nops=W->nops; bool utils=W->utils; (void)me; auto fail=[&](const char *what,std::exception &e){ sim_log("%s: %s",what,exceptionToString(e).c_str()); if(strict) VIOL("exception","%s: %s",what,exceptionToString(e).c_str()); W->threw=true; W->dirty=true; };
  auto openIt=[&]()->bool{ try { if(utils) tab=ParmTableUtils::openTable("tab"); else tab=new FastParmTable("tab",coin(0.5)); if(step==1&&!W->threw) {} return true; } catch(std::exception &e){ fail("open",e); tab=0; return false; } };
  if(!utils||W->re>0||coin(0.5)) if(!openIt()){ W->done=true; W->ends++; sim_sleep_ns(3600*SEC); }
  sim_faults.disk_read_err=W->re; // (a table of which the header cannot be read is replaced, with a warning, as one that is broken)
  static World *w; w=W; int left=nth; int *lp=new int(nth); (void)left; (void)ok; 
  for(int th=0;th<nth;th++) spawn("user",[=]{ ParmTable *t=tab; vector<Funklet::Ref> fs; try { 
      for(int o=0;o<nops;o++){ w->ops++; if(utils) t=ParmTableUtils::openTable("tab"); int x=pick(mine.size()); x=x-x%nth+th; if(x>=(int)mine.size()) x=th; if(x>=(int)mine.size()) break; int i=mine[x]; int j=pick(w->ndom); int op=pick(20,"op");
        try { if(op<9) putOne(*t,i,j); else if(op<11&&fs.size()) putOne(*t,i,j,&fs[pick(fs.size())]); else if(op<15) checkGet(*t,i,j,GET_OWN,"read",&fs); else if(op<17) checkGet(*t,pick(w->nname),j,0,"read of another"); else if(op==17){ bool was=w->dirty; sim_log("flush"); if(utils) ParmTableUtils::flushTables(); else t->flush(); if(nth==1&&step==1&&!w->threw) w->dirty=false; (void)was; }
          else if(op==18){ FastParmTable *ft=dynamic_cast<FastParmTable*>(t); if(ft&&nth==1){ string nm; int id; set<std::pair<int,int>> it; for(bool b=ft->firstFunklet(nm,id);b;b=ft->nextFunklet(nm,id)){ if(broken()) continue; int i=-1; for(int z=0;z<w->nname;z++) if(nameOf(z)==nm) i=z; if(i<0) VIOL("made-up","the iterator returns '%s'",nm.c_str()); Funklet::Ref f; if(!ft->getFunklet(f,nm,id)) VIOL("lost","the iterator returns '%s' domain %d, which is not there",nm.c_str(),id); int jj,v; decode(*f,i,jj,v,"iterator"); it.insert({i,jj}); } if(!broken()&&step==1) for(int i=0;i<w->nname;i++) for(int j=0;j<w->ndom;j++) if(!w->k[i][j].possible.count(0)&&!it.count({i,j})) VIOL("lost","the iterator does not return %s",keyStr(i,j).c_str()); } }
          else if(coin(0.3)) sim_sleep_ns(MS); } catch(std::exception &e){ sim_log("op: %s",exceptionToString(e).c_str()); if(strict) VIOL("exception","%s",exceptionToString(e).c_str()); w->threw=true; w->dirty=true; } } } catch(std::exception &e){ if(strict) VIOL("exception","%s",exceptionToString(e).c_str()); w->threw=true; w->dirty=true; }
      --*lp; });
  if(!waitFor([=]{ return *lp==0; },600*SEC)) VIOL("stuck","the users of the table do not end");
  if(coin(0.8)||step>1){ try { if(coin(0.3)&&!utils) tab->flush(); if(utils){ if(coin(0.5)) ParmTableUtils::flushTables(); ParmTableUtils::closeTables(); } else if(tab) delete tab; if(!W->threw) W->dirty=false; sim_log("closed"); } catch(std::exception &e){ fail("close",e); } }
  (void)own_obj; W->done=true; W->ends++; sim_sleep_ns(3600*SEC); }
// a new process that reads the whole table
static void reader(){ if(broken()){ W->resets++; sim_probe("given_up"); try { FastParmTable t("tab",coin(0.5)); vector<Funklet::Ref> fs; for(int i=0;i<W->nname;i++) for(int j=0;j<W->ndom;j++){ Domain::Ref dr(mkDom(j),DMI::ANON); t.getFunklets(fs,nameOf(i),*dr); fs.clear(); } } catch(std::exception &e){ sim_log("%s",exceptionToString(e).c_str()); } for(const char *f:{"tab/domains","tab/funklets"}) unlink(f); for(auto &a:W->k) for(auto &k:a){ k.possible={0}; k.torn=false; k.flying=0; } W->dirty=W->threw=false; W->done=true; sim_sleep_ns(3600*SEC); }
  bool wr=coin(0.5); W->nclean=0; try { FastParmTable t("tab",wr); int found=0,must=0; map<std::pair<int,int>,int> got; bool calm=!W->threw;
    for(int i=0;i<W->nname;i++) for(int j=0;j<W->ndom;j++){ vector<Funklet::Ref> fs; Domain::Ref dr(mkDom(j),DMI::ANON); int n=t.getFunklets(fs,nameOf(i),*dr); if(!n) fs.clear(); set<int> seen; for(auto &f:fs){ int jj,v; decode(*f,i,jj,v,"after reopening"); if(!seen.insert(jj).second) VIOLK(i,"duplicate","%s is returned twice",keyStr(i,jj).c_str()); if(!overlap(j,jj)) VIOLK(i,"wrong-domain","domain %d asked for, domain %d returned, which does not overlap",j,jj); auto key=std::make_pair(i,jj); if(got.count(key)&&got[key]!=v) VIOLK(i,"unstable","%s is version %d, then %d",keyStr(i,jj).c_str(),got[key],v); got[key]=v; } for(int jj=0;jj<W->ndom;jj++) if(overlap(j,jj)&&got.count({i,jj})&&!seen.count(jj)) VIOLK(i,"lost","%s is missing from the result for domain %d",keyStr(i,jj).c_str(),j); }
    for(auto &g:got) found++; for(auto &a:W->k) for(auto &k:a) if(!k.possible.count(0)) must++;
    bool reset=!found&&must; if(reset&&!W->dirty) VIOL("table-lost","the table is empty, nothing had been written since it was flushed or closed"); if(reset){ W->resets++; sim_probe("reset"); for(auto &a:W->k) for(auto &k:a){ k.possible.clear(); k.possible.insert(0); } }
    else for(int i=0;i<W->nname;i++) for(int j=0;j<W->ndom;j++){ int v=got.count({i,j})?got[{i,j}]:0; Key &k=W->k[i][j]; if(!k.possible.count(v)&&calm) VIOLK(i,v?"stale":"lost","after reopening %s has version %d, it should be %s",keyStr(i,j).c_str(),v,setStr(k.possible).c_str()); if(!calm&&!k.possible.count(v)&&!W->dirty) VIOLK(i,v?"stale":"lost","after reopening %s has version %d, it should be %s",keyStr(i,j).c_str(),v,setStr(k.possible).c_str()); k.possible.clear(); k.possible.insert(v); }
    // the iterator
    string nm; int id; map<std::pair<int,int>,int> it; for(bool b=t.firstFunklet(nm,id);b;b=t.nextFunklet(nm,id)){ int i=-1; for(int x=0;x<W->nname;x++) if(nameOf(x)==nm) i=x; if(i<0) VIOL("made-up","the iterator returns '%s'",nm.c_str()); Funklet::Ref f; int n; try { n=t.getFunklet(f,nm,id); } catch(std::exception &e){ VIOLK(i,"exception","reading funklet '%s' %d of the iterator: %s",nm.c_str(),id,exceptionToString(e).c_str()); } if(!n) VIOLK(i,"lost","the iterator returns '%s' domain %d, which is not there",nm.c_str(),id); int j,v; decode(*f,i,j,v,"iterator"); if(it.count({i,j})) VIOLK(i,"duplicate","the iterator returns %s twice",keyStr(i,j).c_str()); it[{i,j}]=v; }
    if(it!=got) VIOLK(-1,"lost","the iterator finds %zu funklets, reading by domain finds %zu",it.size(),got.size());
    if(wr&&!it.empty()&&coin(0.2)){ auto p=it.begin(); std::advance(p,pick(it.size())); int i=p->first.first,j=p->first.second; if(coin(0.5)){ Funklet::Ref f; string n2=nameOf(i); int did=-1; for(bool b=t.firstFunklet(nm,id);b;b=t.nextFunklet(nm,id)) if(nm==n2){ t.getFunklet(f,nm,id); if(domOf(f->domain())==j) did=id; } t.deleteFunklet(n2,did); W->k[i][j].possible={0}; } else { t.deleteAllFunklets(nameOf(i)); for(auto &k:W->k[i]) k.possible={0}; } for(int jj=0;jj<W->ndom;jj++) checkGet(t,i,jj,GET_OWN,"after deletion"); }
    for(auto &a:W->k) for(auto &k:a){ k.torn=false; k.flying=0; } W->dirty=false; W->threw=false; sim_state(mixh(mixh(found,W->resets),it.size())); } catch(std::exception &e){ VIOLK(-1,"exception","reading the table: %s",exceptionToString(e).c_str()); }
  W->done=true; sim_sleep_ns(3600*SEC); }
static void newWorld(){ W=new World; W->nname=1+pick(5,"names"); W->ndom=1+pick(8,"domains"); if(coin(0.15)) W->ndom=30+pick(20); for(int j=0;j<W->ndom;j++){ double t=4.5e9+j*100.125,f=1.4e9+(j%3)*1e6; vector<double> d={t,t+100.125,f,f+1e6}; switch(pick(6)){ case 0: d[2]=d[3]=0; break; case 1: d[1]+=150; break; case 2: d[0]=d[1]=0; d[2]+=j*10.5; d[3]+=j*10.5; break; } W->dom.push_back(d); } W->k.assign(W->nname,vector<Key>(W->ndom)); }
static void verify(){ W->done=false; int n=sim_node_start(HOST,2,W); if(!waitFor([n]{ return W->done||!sim_node_alive(n); },600*SEC)) VIOL("stuck","reading the table does not end"); sim_node_crash(n); }
static void scn_table(bool faults){ newWorld(); if(coin(0.3)) sim_faults.disk_short=0.2; if(!sim_param("nofault",0)&&coin(0.3)){ sim_faults.stall=0.001*(1+pick(10)); sim_faults.stall_ns=MS*(1+pick(20)); } int rounds=1+pick(sim_tier()?6:4,"rounds"); double we=faults?(coin(0.5)?0:0.002*(1+pick(20))):0, se=faults&&coin(0.4)?0.1*(1+pick(5)):0, re=faults&&coin(0.2)?0.01*(1+pick(5)):0; double ds=sim_faults.disk_short;
  for(int r=0;r<rounds;r++){ W->nthreads=coin(0.5)?1:1+pick(3); W->nops=1+pick(W->ndom>20?40:25,"ops"); W->utils=coin(0.4); W->faults=faults; W->done=false; W->first=0; W->step=1; bool crash=coin(0.6); sim_faults.disk_write_err=we; sim_faults.disk_sync_err=se; W->re=re; sim_faults.disk_short=ds; if(faults&&coin(0.4)) sim_faults.disk_quota=pick(coin(0.5)?40000:4000);
    int n=sim_node_start(HOST,1,W); if(crash){ long k=W->ops+pick(W->nops*W->nthreads+2,"crash_op"); waitFor([k]{ return W->ops>=k||W->done; },600*SEC); for(int y=pick(60,"crash_yield");y>0&&!W->done;y--) sim_yield(); sim_log("crash"); for(auto &a:W->k) for(auto &k:a) if(k.flying) k.torn=true; if(W->faults) W->dirty=true; sim_node_crash(n); } else { if(!waitFor([n]{ return W->done||!sim_node_alive(n); },600*SEC)) VIOL("stuck","the worker does not end"); int c; if(!sim_node_alive(n)) VIOL("worker-died","the worker died (%d)",sim_node_exited(n,&c)?c:-1); sim_node_crash(n); }
    sim_faults.disk_write_err=sim_faults.disk_read_err=sim_faults.disk_short=sim_faults.disk_sync_err=0; sim_faults.disk_quota=-1; verify(); }
  sim_pass(); }
static void scn_shared(){ newWorld(); int np=2+pick(2); W->step=np; W->nthreads=1; int rounds=1+pick(2); for(int r=0;r<rounds;r++){ W->ends=0; for(int p=0;p<np;p++){ W->first=p; W->nops=1+pick(12); W->utils=coin(0.3); W->done=false; sim_node_start(HOST,1,W); sim_sleep_ns(1+pick(3)*MS); } if(!waitFor([np]{ return W->ends==np; },600*SEC)) VIOL("stuck","%d of %d processes that share a table do not end",np-W->ends,np); verify(); } sim_pass(); }
extern "C" void node_main(int role,void *shared){ aidRegistry_Meq(); if(role){ W=(World*)shared; if(role==1) worker(); else reader(); return; }
  try { switch((int)sim_param("scn",1)){ case 1: scn_table(false); break; case 2: scn_table(true); break; case 3: scn_shared(); break; } } catch(std::exception &e){ VIOL("exception","%s",exceptionToString(e).c_str()); } }
