// Harness for the visibility data path: VisDataMux, Spigot, Sink, BOIOChannel, MTQueueChannel, Forest and MTPool (real code) between files on the
// simulated disk; only the nodes between a spigot and a sink are test nodes. Python handlers and measurement sets are stubs.
#include "common.h"
#include <MEQ/Forest.h>
#include <MEQ/Node.h>
#include <MEQ/MTPool.h>
#include <MEQ/Request.h>
#include <MEQ/Result.h>
#include <MEQ/VellSet.h>
#include <MEQ/Cells.h>
#include <MEQ/Domain.h>
#include <MEQ/MeqVocabulary.h>
#include <MeqServer/VisDataMux.h>
#include <MeqServer/Spigot.h>
#include <MeqServer/Sink.h>
#include <MeqServer/AID-MeqServer.h>
#include <MeqServer/TID-MeqServer.h>
#include <AppAgent/BOIOChannel.h>
#include <AppAgent/VisDataVocabulary.h>
#include <AppUtils/MSChannelVocabulary.h>
#include <VisCube/VTile.h>
#include <VisCube/VisVocabulary.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/BOIO.h>
#include <DMI/Exception.h>
#include <DMI/Vec.h>
using namespace Meq; using DMI::HIID; using DMI::BOIO; using DMI::ObjRef; using DMI::AtomicID; using std::string; using std::vector; using std::map; using std::set; using VisCube::VTile; using namespace AppAgent;
#define VIOL(cls,...) sim_violation(cls,__VA_ARGS__)
static const char *HOST="h1";
// ---- stubs
int aidRegistry_MeqServer(){ return 0; } int aidRegistry_MeqNodes(){ return 0; }
static double py_fail=0; static int py_failed=0;
static void py(){ if(py_fail&&coin(py_fail,"python")){ py_failed++; Throw("simulated failure of a Python handler"); } }
namespace MeqPython { void processInitRecord(const DMI::Record&){} void processVisHeader(const DMI::Record&){ py(); } void processVisTile(const VTile&){ py(); } void processVisFooter(const DMI::Record&){ py(); } }
extern "C" void ms_0(void*) __asm__("_ZN8AppAgent14MSInputChannelC1Ev"); extern "C" void ms_0(void*){ abort(); }
extern "C" void ms_1(void*) __asm__("_ZN8AppAgent15MSOutputChannelC1Ev"); extern "C" void ms_1(void*){ abort(); }
extern "C" void ms_2(void*) __asm__("_ZN8AppAgent18MSSeqOutputChannelC1Ev"); extern "C" void ms_2(void*){ abort(); }
// ---- the plan of one run
enum { PASS,SCALE,SUM,GAIN };
struct Sp { int ifr=0,node=0; vector<int> corr; int fmask=-1,rmask=-1,fbit=1; int kind=0; };       // kind 0 DATA, 1 UVW
struct Nd { int op=PASS; double c=1; vector<int> ch; int failat=-1; int slow=0; bool throws=false; int ifr=-1; };  // a test node, by node index
struct Sk { int ifr=0,node=0,child=0,label=0; int col=-1; vector<int> map; int fmask=-1,fbit=0; };
struct Ifr { int p,q; };
struct Set { int nst=0,nc=4,nf=1,id=0; int nsnip=0; vector<vector<int>> tiles; vector<int> nt,r0,r1,seq; double t0=0; int fprob=0; };  // tiles[s]: the ifrs of snippet s; rows r0..r1 are valid
struct Tile { int ds,snip,ifr; };
struct World { vector<Ifr> ifrs; vector<Sp> sp; vector<Sk> sk; map<int,Nd> nd; vector<int> trio; int mux=0; set<int> outcols; };
static World *W; static Forest *F; static int nthreads=1; static map<int,Sp*> spof; 
static vector<Set> DS; static int base_id=0; // data sets of the current request
static u64 H(u64 a,u64 b,u64 c,u64 d=0,u64 e=0){ return mixh(mixh(mixh(mixh(a*0x9e3779b97f4a7c15ull+7,b),c),d),e); }
static float val(const Set &s,int snip,int ifr,int t,int f,int c,int im){ return (float)((i64)(H(s.id*1000+snip,ifr,t*100+f,c,im)%401)-200); }
static int flg(const Set &s,int snip,int ifr,int t,int f,int c){ u64 h=H(s.id*1000+snip+77,ifr,t*100+f,c,9); return (int)(h%100)<s.fprob?(int)(h>>20)%8:0; }
static int rflg(const Set &s,int snip,int ifr,int t){ u64 h=H(s.id*1000+snip+99,ifr,t,3,9); if((int)(h%100)>=s.fprob) return 0; return (h>>20)%6==5?VisVocabulary::FlagMissing:1<<((h>>30)%4); }
static double uvw(const Set &s,int snip,int ifr,int t,int k){ return (double)((i64)(H(s.id*1000+snip+55,ifr,t,k,1)%2001)-1000)/8; }
static double ttime(const Set &s,int snip,int t){ double x=s.t0; for(int k=0;k<snip;k++) x+=s.nt[k]*10.0; return x+t*10.0+5; }
static int ts0(const Set &s,int snip){ int x=0; for(int k=0;k<snip;k++) x+=s.nt[k]; return x; }
// ---- test nodes
struct Ev { int node,dom,ds; u64 t0,t1; }; static Ev LOG[20000]; static int nlog=0; static int nfailed=0;
static int sub(const HIID &id,int i){ return i<int(id.size())?id[i].id():0; }
static double gain(int dom,int ds){ return 1+(dom*3+ds)%5; }
class SimVis: public Node { public: SimVis():Node(-1,0,0){ disableAutoResample(); const HIID d[2]={FDomain,FDataset}; setActiveSymDeps(d,2); }
  virtual TypeId objectType() const { return TpMeqNode; }
  virtual int getResult(Result::Ref &ref,const vector<Result::Ref> &ch,const Request &req,bool){ int i=nodeIndex(); const Nd &n=W->nd[i]; HIID id=req.id();
    Ev *e=0; { NoPreempt np; if(nlog<20000){ e=&LOG[nlog++]; e->node=i; e->t0=sim_seq(); e->t1=0; e->dom=sub(id,4); e->ds=sub(id,5); } }
    if(n.slow==1) sim_yield(); else if(n.slow) sim_sleep_ns((u64)n.slow*50000);
    sim_state(H(i,sub(id,4),sub(id,5),sim_self()));
    int rc=0; if(n.failat>=0&&sub(id,4)==n.failat){ nfailed++; sim_log("node %d fails for %d.%d",i,sub(id,5),sub(id,4)); if(e) e->t1=sim_seq(); if(n.throws) NodeThrow(FailWithoutCleanup,"simfail "+std::to_string(i)); (ref <<= new Result(1)).setNewVellSet(0).addFail(MakeNodeException("simfail "+std::to_string(i))); return RES_FAIL; }
    if(n.op==PASS) ref=ch[0];
    else if(n.op==GAIN){ (ref <<= new Result(1)).setNewVellSet(0).setValue(new Vells(gain(sub(id,4),sub(id,5)),false)); }
    else { const Result &a=*ch[0]; Result &r=ref <<= new Result(a.dims()); double g=n.c; const Result *b=0; if(n.op==SUM) b=&*ch[1]; else if(ch.size()>1) g=ch[1]->vellSet(0).getValue().as<double>();
      for(int k=0;k<a.numVellSets();k++){ const VellSet &va=a.vellSet(k); VellSet &v=r.setNewVellSet(k); const VellSet *vb=b?&b->vellSet(k):0; bool ha=va.hasValue(), hb=vb&&vb->hasValue(); if(!ha&&!hb) continue; const Vells &src=(ha?va:*vb).getValue(); Vells::Shape shp=src.shape(); int N=src.nelements(); bool cx=src.isComplex();
        Vells *out=cx?new Vells(numeric_zero<dcomplex>(),shp,true):new Vells(0.,shp,true); Vells::Ref vref(out,DMI::ANONWR);
        for(int pass=0;pass<2;pass++){ if(pass?!hb:!ha) continue; const Vells &x=(pass?*vb:va).getValue(); if(cx){ const dcomplex *p=x.begin<dcomplex>(); dcomplex *q=out->begin<dcomplex>(); for(int j=0;j<N;j++) q[j]+=p[j]*(b?1.0:g); } else { const double *p=x.begin<double>(); double *q=out->begin<double>(); for(int j=0;j<N;j++) q[j]+=p[j]*(b?1.0:g); } }
        v.setValue(vref); const VellSet *f1=va.hasDataFlags()?&va:0, *f2=vb&&vb->hasDataFlags()?vb:0; if(f1&&f2){ Vells::Ref m(new Vells(f1->dataFlags()|f2->dataFlags()),DMI::ANONWR); v.setDataFlags(m); } else if(f1||f2) v.setDataFlags((f1?f1:f2)->dataFlags()); } }
    if(ref.valid()&&n.op!=PASS) ref().setCells(req.cells());
    if(e) e->t1=sim_seq(); return rc; }
};
static DMI::BObj *mkVis(int){ return new SimVis; } static DMI::BObj *mkMux(int){ return new VisDataMux; } static DMI::BObj *mkSpigot(int){ return new Spigot; } static DMI::BObj *mkSink(int){ return new Sink; }
// ---- reference model of one sink's result
struct Plane { int kind=0; /*0 null 1 scalar 2 array*/ double sre=0,sim=0; vector<double> re,im; int nt=0,nf=0; bool flags=false; vector<int> fl; };
static void spigotPlanes(const Sp &s,const Set &d,int snip,vector<Plane> &out){ out.clear(); int r0=d.r0[snip],r1=d.r1[snip],nt=r1-r0+1;
  for(size_t k=0;k<s.corr.size();k++){ Plane p; int c=s.corr[k]; if(c>=0){ p.kind=2; p.nt=nt; p.nf=d.nf; bool any=false; for(int t=0;t<nt;t++) for(int f=0;f<d.nf;f++){ p.re.push_back(val(d,snip,s.ifr,r0+t,f,c,0)); p.im.push_back(val(d,snip,s.ifr,r0+t,f,c,1)); int rf=rflg(d,snip,s.ifr,r0+t); int x=(s.fmask?flg(d,snip,s.ifr,r0+t,f,c)&s.fmask:0)|(rf&s.rmask)|(rf==VisVocabulary::FlagMissing?1:0); if(x){ any=true; if(s.fbit) x=s.fbit; } p.fl.push_back(x); } p.flags=any; } out.push_back(p); } }
static bool nodePlanes(int i,const Set &d,int snip,int dsi,vector<Plane> &out){ auto it=spof.find(i); if(it!=spof.end()){ spigotPlanes(*it->second,d,snip,out); return true; } const Nd &n=W->nd[i]; if(n.failat>=0&&snip==n.failat) return false;
  if(n.op==GAIN){ Plane p; p.kind=1; p.sre=gain(snip,dsi); out.assign(1,p); return true; }
  vector<Plane> b; if(!nodePlanes(n.ch[0],d,snip,dsi,out)) return false; double g=n.c; if(n.ch.size()>1){ if(!nodePlanes(n.ch[1],d,snip,dsi,b)) return false; if(n.op!=SUM&&n.op!=PASS) g=b[0].sre; }
  if(n.op==SCALE) for(auto &p:out){ for(auto &x:p.re) x*=g; for(auto &x:p.im) x*=g; p.sre*=g; }
  if(n.op==SUM) for(size_t k=0;k<out.size();k++){ Plane &p=out[k]; Plane &q=b[k]; if(!q.kind) continue; if(!p.kind){ p=q; continue; } for(size_t j=0;j<p.re.size();j++){ p.re[j]+=q.re[j]; p.im[j]+=q.im[j]; if(q.flags) p.fl[j]=(p.flags?p.fl[j]:0)|q.fl[j]; } p.sre+=q.sre; p.flags|=q.flags; }
  return true; }
// ---- input files
static VTile::Format::Ref mkFormat(const Set &s){ VTile::Format::Ref f; VTile::Format &ff=f<<=new VTile::Format; VTile::makeDefaultFormat(ff,s.nc,s.nf); return f; }
static HIID vdsid(const Set &s){ return VisCube::VDSID(1,0,s.id); }
static DMI::Record::Ref mkHeader(const Set &s,VTile::Format::Ref &fmt){ DMI::Record::Ref r(DMI::ANONWR); DMI::Record &h=r(); h[Meq::FNumStations]=s.nst; int nts=ts0(s,s.nsnip); h[VisVocabulary::FNumTimeslots]=nts; h[VisVocabulary::FNumChannels]=s.nf; h[MSChannel::FTimeIncrement]=1; h[MSChannel::FChannelIncrement]=1; h[MSChannel::FChannelStartIndex]=0; vector<double> te; te.push_back(s.t0); te.push_back(s.t0+10*nts); h[VisVocabulary::FTimeExtent]=te; vector<double> fr,fw; for(int k=0;k<s.nf;k++){ fr.push_back(1e6*(k+1)); fw.push_back(1e6); } h[VisVocabulary::FChannelFreq]=fr; h[VisVocabulary::FChannelWidth]=fw; h[FTileFormat]<<=fmt.copy(); h[VisVocabulary::FVDSID]=vdsid(s); return r; }
static VTile *mkTile(const Set &s,int snip,int ifr,const VTile::Format::Ref &fmt){ int nt=s.nt[snip]; VTile *t=new VTile(fmt,nt); const Ifr &b=W->ifrs[ifr]; t->setTileId(b.p,b.q,s.seq[snip],VisCube::VDSID(1,0,s.id)); 
  LoVec_double tm=t->wtime(), iv=t->winterval(); LoVec_int tsl=t->wtimeslot(), rf=t->wrowflag(); LoMat_double uv=t->wuvw(); LoCube_fcomplex da=t->wdata(); LoCube_int fl=t->wflags();
  for(int k=0;k<nt;k++){ bool ok=k>=s.r0[snip]&&k<=s.r1[snip]; tm(k)=ok?ttime(s,snip,k):0; iv(k)=10; tsl(k)=ts0(s,snip)+k; rf(k)=ok?rflg(s,snip,ifr,k):VisVocabulary::FlagMissing; for(int j=0;j<3;j++) uv(j,k)=uvw(s,snip,ifr,k,j); for(int f=0;f<s.nf;f++) for(int c=0;c<s.nc;c++){ da(c,f,k)=make_fcomplex(val(s,snip,ifr,k,f,c,0),val(s,snip,ifr,k,f,c,1)); fl(c,f,k)=flg(s,snip,ifr,k,f,c); } } return t; }
struct Item { int type; int ds,snip,ifr; }; // 0 header 1 tile 2 footer
static vector<Item> plan(){ vector<Item> v; for(size_t k=0;k<DS.size();k++){ v.push_back({0,(int)k,0,0}); for(int s=0;s<DS[k].nsnip;s++) for(int i:DS[k].tiles[s]) v.push_back({1,(int)k,s,i}); v.push_back({2,(int)k,0,0}); } return v; }
static void post(EventChannel &ch,const Item &it,vector<VTile::Format::Ref> &fm){ Set &s=DS[it.ds]; if(it.type==0){ DMI::Record::Ref h=mkHeader(s,fm[it.ds]); ch.postEvent(VisData::VisEventHIID(VisData::HEADER,vdsid(s)),h); } else if(it.type==1){ ObjRef o(mkTile(s,it.snip,it.ifr,fm[it.ds]),DMI::ANONWR); HIID id=((const VTile*)&*o)->tileId(); ch.postEvent(VisData::VisEventHIID(VisData::DATA,id),o); } else { DMI::Record::Ref f(DMI::ANONWR); f()[VisVocabulary::FVDSID]=vdsid(s); f()[AidNum]=s.id; ch.postEvent(VisData::VisEventHIID(VisData::FOOTER,vdsid(s)),f); } }
static void writeInput(const string &name,const vector<Item> &its){ vector<VTile::Format::Ref> fm; for(auto &s:DS) fm.push_back(mkFormat(s)); BOIOChannel ch; DMI::Record::Ref r(DMI::ANONWR); r()[AppEvent::FBOIOFileName]=name; r()[AppEvent::FBOIOFileMode]=string("W"); ch.init(*r); for(auto &it:its) post(ch,it,fm); ch.close(); }
// ---- the forest
static DMI::Vec *ivec(const vector<int> &v){ DMI::Vec *x=new DMI::Vec(Tpint,v.size()); for(size_t k=0;k<v.size();k++) (*x)[k]=v[k]; return x; }
struct NodeRec { string cls; DMI::Record::Ref rec; vector<int> ch,step,par; };
static vector<NodeRec*> NR;
static int newNode(const string &cls){ NodeRec *n=new NodeRec; n->cls=cls; n->rec<<=new DMI::Record; NR.push_back(n); return NR.size(); }
static void link(int p,int c,bool step=false){ (step?NR[p-1]->step:NR[p-1]->ch).push_back(c); if(c>0) NR[c-1]->par.push_back(p); }
static void create(){ F=new Forest; for(size_t k=0;k<NR.size();k++){ NodeRec *n=NR[k]; DMI::Record &r=n->rec(); r[FClass]=n->cls; r[FName]="n"+std::to_string(k+1); r[FNodeIndex]=(int)k+1; if(!n->ch.empty()) r[FChildren]<<=ivec(n->ch); if(!n->step.empty()) r[FStepChildren]<<=ivec(n->step); if(!n->par.empty()) r[FParents]<<=ivec(n->par); int ni=k+1; F->create(ni,n->rec); } F->initAll(); if(F->numInitErrors()) VIOL("init","%d init errors",F->numInitErrors()); }
static int vnode(int op,int ifr){ int i=newNode("SimVis"); Nd n; n.op=op; n.ifr=ifr; n.slow=coin(0.4)?0:coin(0.5)?1:1+pick(30); W->nd[i]=n; NR[i-1]->rec()[FMTPolling]=coin(0.8); return i; }
static void vlink(int p,int c){ W->nd[p].ch.push_back(c); link(p,c); }
static void mkForest(bool fails){ W=new World; int nst=1+pick(sim_tier()?5:4,"stations"); for(int p=0;p<nst;p++) for(int q=p;q<nst;q++) if((p!=q||coin(0.3))) W->ifrs.push_back(coin(0.15)?Ifr{q,p}:Ifr{p,q}); if(W->ifrs.empty()) W->ifrs.push_back(Ifr{0,0});
  W->mux=newNode("MeqVisDataMux"); NR[0]->rec()[FMTPolling]=coin(0.9); for(int k=0;k<3;k++) W->trio.push_back(coin(0.4)?vnode(GAIN,-1):-1); for(int i:W->trio) link(W->mux,i);
  int gain=coin(0.5)?vnode(GAIN,-1):0; W->sp.reserve(100); W->sk.reserve(100);
  for(size_t b=0;b<W->ifrs.size();b++){ if(coin(0.1)) continue; vector<int> mine; int ncr=coin(0.7)?4:coin(0.5)?1:2;
    int nsp=1+(coin(0.25)?1:0); for(int k=0;k<nsp;k++){ int i=newNode("MeqSpigot"); Sp s; s.ifr=b; s.node=i; vector<int> cr; for(int j=0;j<ncr;j++) cr.push_back(coin(0.1)?-1:coin(0.7)?j:(int)pick(4)); s.corr=cr; const int M[]={-1,0,1,6}; s.fmask=M[pick(4)]; s.rmask=M[pick(4)]; const int B[]={1,0,8}; s.fbit=B[pick(3)]; DMI::Record &r=NR[i-1]->rec(); r[AidStation|1|AidIndex]=W->ifrs[b].p; r[AidStation|2|AidIndex]=W->ifrs[b].q; r[AidInput|AidCol]=string(coin(0.5)?"DATA":"data"); r[AidFlag|AidMask]=s.fmask; r[AidRow|AidFlag|AidMask]=s.rmask; r[AidFlag|AidBit]=s.fbit; if(ncr!=4||coin(0.7)){ if(ncr==4&&coin(0.5)) r[AidDims]<<=ivec({2,2}); else r[AidDims]<<=ivec({ncr}); } r[AidCorr|AidIndex]<<=ivec(cr); W->sp.push_back(s); link(W->mux,i,true); mine.push_back(i); }
    int top=mine[0]; if(nsp>1){ int s=vnode(SUM,b); vlink(s,mine[0]); vlink(s,mine[1]); top=s; } vector<int> tops; tops.push_back(top); int depth=pick(3); for(int k=0;k<depth;k++){ int s=vnode(coin(0.4)?PASS:SCALE,b); vlink(s,top); if(W->nd[s].op==SCALE){ if(gain&&coin(0.6)) vlink(s,gain); else W->nd[s].c=1+pick(4); } if(fails&&coin(0.1)){ W->nd[s].failat=pick(4); W->nd[s].throws=coin(0.5); } top=s; tops.push_back(top); }
    int nsk=coin(0.08)?0:1+(coin(0.25)?1:0); for(int k=0;k<nsk;k++){ int i=newNode("MeqSink"); Sk s; s.ifr=b; s.node=i; s.child=k==0?top:gain&&coin(0.3)?gain:tops[pick(tops.size())]; const int C[]={VTile::DATA,VTile::PREDICT,VTile::RESIDUALS,-1}; s.col=C[pick(4)]; const char *N=s.col==VTile::DATA?"DATA":s.col==VTile::PREDICT?(coin(0.5)?"PREDICT":"predict"):s.col==VTile::RESIDUALS?"RESIDUALS":""; DMI::Record &r=NR[i-1]->rec(); r[AidStation|1|AidIndex]=W->ifrs[b].p; r[AidStation|2|AidIndex]=W->ifrs[b].q; if(*N||coin(0.5)) r[AidOutput|AidCol]=string(N); if(s.col>=0) W->outcols.insert(s.col); if(coin(0.3)){ for(int j=0;j<4;j++) s.map.push_back(coin(0.2)?-1:coin(0.6)?j:(int)pick(5)); r[AidCorr|AidIndex]<<=ivec(s.map); } const int M[]={-1,0,1,9}; s.fmask=M[pick(4)]; const int B[]={0,1,4}; s.fbit=B[pick(3)]; r[AidFlag|AidMask]=s.fmask; r[AidFlag|AidBit]=s.fbit; r[FMTPolling]=coin(0.8); W->sk.push_back(s); link(i,s.child); link(W->mux,i); } }
  int ntree=W->ifrs.size(); if(coin(0.3)) W->ifrs.push_back(Ifr{nst-1,nst+(int)pick(2)}); (void)ntree; for(auto &s:W->sp) spof[s.node]=&s;
  auto vs=[](const vector<int> &v){ string o; for(int x:v) o+=std::to_string(x)+","; return o; };
  for(size_t b=0;b<W->ifrs.size();b++) sim_log("baseline %zu: %d-%d",b,W->ifrs[b].p,W->ifrs[b].q); for(auto &s:W->sp) sim_log("spigot %d: baseline %d corr %s mask %d row mask %d bit %d",s.node,s.ifr,vs(s.corr).c_str(),s.fmask,s.rmask,s.fbit); for(auto &n:W->nd) sim_log("node %d: op %d c %g of %s",n.first,n.second.op,n.second.c,vs(n.second.ch).c_str()); for(auto &k:W->sk) sim_log("sink %d: baseline %d child %d column %d corr %s mask %d bit %d",k.node,k.ifr,k.child,k.col,vs(k.map).c_str(),k.fmask,k.fbit); }
static void mkSets(int nds){ DS.clear(); int nstT=1; for(auto &b:W->ifrs) nstT=std::max(nstT,1+std::max(b.p,b.q));
  for(int k=0;k<nds;k++){ Set s; s.id=++base_id; s.nst=coin(0.7)?nstT:1+pick(nstT+2); s.nc=coin(0.8)?4:1+pick(4); s.nf=1+pick(3); s.nsnip=coin(0.1)?0:1+pick(sim_tier()?6:4); s.t0=1000*s.id; s.fprob=coin(0.3)?0:10+pick(60); int seq=pick(5);
    int want=s.nsnip; s.nsnip=0; for(int j=0;j<want;j++){ vector<int> t; for(size_t b=0;b<W->ifrs.size();b++) if(std::max(W->ifrs[b].p,W->ifrs[b].q)<s.nst&&coin(0.85)) t.push_back(b); if(t.empty()) continue; s.nsnip++; for(size_t a=0;a<t.size();a++) std::swap(t[a],t[a+pick(t.size()-a)]); int nt=1+pick(3),r0=0,r1=nt-1; if(coin(0.25)){ r0=pick(nt); r1=r0+pick(nt-r0); } s.tiles.push_back(t); s.nt.push_back(nt); s.r0.push_back(r0); s.r1.push_back(r1); s.seq.push_back(seq); seq+=1+pick(2); }
    DS.push_back(s); } }

// ---- one request
struct EvCount { int open,closed,header,tiles,footer,nt,nc,err; }; static EvCount ec; static bool abort_late=false; // raised when the request was all but done
 static int ds_seen=0; 
static void eventCB(const HIID &type,const ObjRef &data){ if(type.size()<2||type[0]!=AidVis){ if(type==HIID(AidError)) ec.err++; return; } 
  if(type==(AidVis|AidChannel|AidOpen)) ec.open++; else if(type==(AidVis|AidChannel|AidClosed)) ec.closed++; else if(type==(AidVis|AidHeader)){ ec.header++; ds_seen++; } else if(type==(AidVis|AidNum|AidTiles)) ec.tiles++; else if(type==(AidVis|AidFooter)){ ec.footer++; const DMI::Record &r=data.as<DMI::Record>(); ec.nt=r[AidNum|AidTiles].as<int>(); ec.nc=r[AidNum|AidChunks].as<int>(); } }
static string failText(const Result &r){ string o; for(int i=0;i<r.numVellSets();i++) for(int k=0;k<r.vellSet(i).numFails();k++){ const ObjRef &f=r.vellSet(i).getFail(k); const DMI::Record *rec=f.ref_cast<DMI::BObj>()->objectType()==TpDMIRecord?&f.as<DMI::Record>():0; o+=(rec&&(*rec)[AidMessage].exists()?(*rec)[AidMessage].as<string>():f.sdebug(10))+"; "; } return o; }
static bool writes(const Sk &k,const vector<Plane> &P0,const Set &d){ if(k.col<0) return false; int n=P0.size()==1?4:P0.size(); for(int i=0;i<n;i++){ int c=k.map.empty()?i:i<int(k.map.size())?k.map[i]:-1; if(c>=0&&c<d.nc) return true; } return false; }
static bool deliverable(int node,const Set &d){ auto it=spof.find(node); if(it!=spof.end()){ for(int c:it->second->corr) if(c>=d.nc) return false; return true; } for(int c:W->nd[node].ch) if(!deliverable(c,d)) return false; return true; }
// 0: no tile comes out; 1: one does; -1: evaluation fails
static int outcome(const Sk &k,const Set &d,int snip,int dsn,vector<Plane> &P){ if(!deliverable(k.child,d)) return -1; if(!nodePlanes(k.child,d,snip,dsn,P)) return -1; return writes(k,P,d)?1:0; }
static fcomplex at(const VTile &t,int col,int c,int f,int r){ return col==VTile::DATA?t.data()(c,f,r):col==VTile::PREDICT?t.predict()(c,f,r):t.residuals()(c,f,r); }
// does this output tile say what the sink must have written?
static string compare(const VTile &t,const Sk &k,const Set &d,int snip,const vector<Plane> &P0){ char b[300]; int ifr=k.ifr; 
  if(t.nrow()!=d.nt[snip]||t.ncorr()!=d.nc||t.nfreq()!=d.nf){ snprintf(b,sizeof b,"%d x %d x %d instead of %d x %d x %d",t.ncorr(),t.nfreq(),t.nrow(),d.nc,d.nf,d.nt[snip]); return b; } if(!t.defined(k.col)) return "output column missing"; if(k.col==VTile::DATA&&(t.defined(VTile::PREDICT)||t.defined(VTile::RESIDUALS))) return "a column nothing was written to was added";
  int r0=d.r0[snip], r1=d.r1[snip]; vector<Plane> P; const Plane nul; if(P0.size()==1){ P={P0[0],nul,nul,P0[0]}; } else P=P0; 
  vector<int> src(d.nc,-1), fsrc(d.nc,-1); for(size_t i=0;i<P.size();i++){ int c=k.map.empty()?(int)i:i<k.map.size()?k.map[i]:-1; if(c<0||c>=d.nc) continue; src[c]=i; if(P[i].kind&&k.fmask) fsrc[c]=i; }
  for(int r=0;r<t.nrow();r++){ bool ok=r>=r0&&r<=r1; if(t.time()(r)!=(ok?ttime(d,snip,r):0)||t.timeslot()(r)!=ts0(d,snip)+r||t.interval()(r)!=10||t.rowflag()(r)!=(ok?rflg(d,snip,ifr,r):VisVocabulary::FlagMissing)){ snprintf(b,sizeof b,"row %d: time, timeslot, interval or row flag differ from the input",r); return b; } for(int j=0;j<3;j++) if(t.uvw()(j,r)!=uvw(d,snip,ifr,r,j)){ snprintf(b,sizeof b,"row %d: uvw differs from the input",r); return b; }
    for(int f=0;f<d.nf;f++) for(int c=0;c<d.nc;c++){ fcomplex in=make_fcomplex(val(d,snip,ifr,r,f,c,0),val(d,snip,ifr,r,f,c,1)); 
      if(k.col!=VTile::DATA||!ok||src[c]<0){ fcomplex v=at(t,VTile::DATA,c,f,r); if(v!=in){ snprintf(b,sizeof b,"DATA[%d,%d,%d] is (%g,%g), not the input (%g,%g)",c,f,r,creal(v),cimag(v),creal(in),cimag(in)); return b; } }
      if(ok&&src[c]>=0){ const Plane &p=P[src[c]]; double re=0,im=0; if(p.kind==1){ re=p.sre; im=p.sim; } else if(p.kind==2){ re=p.re[(r-r0)*d.nf+f]; im=p.im[(r-r0)*d.nf+f]; } fcomplex v=at(t,k.col,c,f,r); if(creal(v)!=(float)re||cimag(v)!=(float)im){ snprintf(b,sizeof b,"column %d [%d,%d,%d] is (%g,%g) instead of (%g,%g)",k.col,c,f,r,creal(v),cimag(v),re,im); return b; } }
      if(k.col!=VTile::DATA){ int o=k.col==VTile::PREDICT?VTile::RESIDUALS:VTile::PREDICT; if(t.defined(o)){ fcomplex v=at(t,o,c,f,r); if(creal(v)!=0||cimag(v)!=0){ snprintf(b,sizeof b,"column %d [%d,%d,%d] is (%g,%g), but nothing is to be written to that column",o,c,f,r,creal(v),cimag(v)); return b; } } }
      if(!(ok&&src[c]>=0)&&k.col!=VTile::DATA){ fcomplex v=at(t,k.col,c,f,r); if(creal(v)!=0||cimag(v)!=0){ snprintf(b,sizeof b,"column %d [%d,%d,%d] is (%g,%g), but nothing is to be written there",k.col,c,f,r,creal(v),cimag(v)); return b; } }
      int want=flg(d,snip,ifr,r,f,c); if(ok&&fsrc[c]>=0){ const Plane &p=P[fsrc[c]]; want=p.flags?p.fl[(r-r0)*d.nf+f]&k.fmask:0; if(want&&k.fbit) want=k.fbit; } int got=t.flags()(c,f,r); if(got!=want){ snprintf(b,sizeof b,"flags[%d,%d,%d] are %d instead of %d",c,f,r,got,want); return b; } } }
  return ""; }
struct Tally { size_t items=0; bool torn=false; };
// checks the output file; complete: everything must be there
static void checkOutput(const string &name,const vector<Item> &its,int dsbase,int maxtiles,bool complete,bool loose,bool &haveall){ haveall=false; vector<Item> heads; struct D { int ds; vector<vector<vector<int>>> w; bool footer; int nt=0; }; vector<D> ds; // expected content: per data set, per snippet, the sinks
  for(auto &it:its){ if(it.type==0){ D x; x.ds=it.ds; x.w.resize(DS[it.ds].nsnip); x.footer=false; ds.push_back(x); } else if(ds.empty()) continue; else if(it.type==2) ds.back().footer=true; else if(it.type==1){ if(maxtiles>=0&&it.snip>=maxtiles) continue; for(size_t k=0;k<W->sk.size();k++) if(W->sk[k].ifr==it.ifr) ds.back().w[it.snip].push_back({(int)k}); } }
  if(!sim_disk_exists(HOST,name.c_str())){ if(complete) VIOL("output-lost","the request succeeded, but output file %s is not there",name.c_str()); return; }
  BOIO f; f.open(name,BOIO::READ); size_t cd=0; bool head=false; int snip=0; map<string,int> used; bool bad=false; int ntile=0;
  auto missing=[&](size_t d,int s)->int{ if(d>=ds.size()) return 0; int n=0; D &x=ds[d]; const Set &st=DS[x.ds]; for(auto &v:x.w[s]){ vector<Plane> P; const Sk &k=W->sk[v[0]]; if(v.size()==1&&outcome(k,st,s,dsbase+d+1,P)==1) n++; } return n; };
  while(true){ ObjRef o; try { if(!f.readAny(o)) break; } catch(std::exception &e){ bad=true; break; } const DMI::Record &rec=o.as<DMI::Record>(); HIID ev=rec[AidEvent].as<HIID>(); int type=VisData::VisEventType(ev);
    if(loose) continue;
    if(type==VisData::HEADER){ if(head) VIOL("output-order","%s: a header follows a header or tiles without a footer in between",name.c_str()); const DMI::Record &h=rec[AidData].as<DMI::Record>(); HIID v=h[VisVocabulary::FVDSID].as<HIID>(); if(cd>=ds.size()||v!=vdsid(DS[ds[cd].ds])) VIOL("output-order","%s: header of data set %s where that of set %zu was due",name.c_str(),v.toString('.').c_str(),cd); int hns=h[Meq::FNumStations].as<int>(), hnc=h[VisVocabulary::FNumChannels].as<int>(); if(hns!=DS[ds[cd].ds].nst||hnc!=DS[ds[cd].ds].nf) VIOL("output-changed","%s: header %zu has changed",name.c_str(),cd); head=true; snip=0; }
    else if(type==VisData::FOOTER){ const DMI::Record &h=rec[AidData].as<DMI::Record>(); HIID v=h[VisVocabulary::FVDSID].as<HIID>(); if(cd>=ds.size()||v!=vdsid(DS[ds[cd].ds])) VIOL("output-order","%s: footer of data set %s where that of set %zu was due",name.c_str(),v.toString('.').c_str(),cd); if(complete) for(size_t s=0;s<ds[cd].w.size();s++) if(int m=missing(cd,s)) VIOL("output-lost","the request succeeded, but %d tiles of snippet %zu of data set %zu are not in %s",m,s,cd,name.c_str()); cd++; head=false; snip=0; }
    else if(type==VisData::DATA){ if(!head) VIOL("output-order","%s: a tile before any header",name.c_str()); const VTile &t=rec[AidData].as<VTile>(); D &x=ds[cd]; const Set &st=DS[x.ds]; ntile++; string why="no sink writes one"; bool found=false; int s; for(s=snip;s<st.nsnip&&!found;s++) if(st.seq[s]==t.seqNumber()) for(auto &v:x.w[s]) if(v.size()==1){ const Sk &k=W->sk[v[0]]; const Ifr &b=W->ifrs[k.ifr]; if(b.p!=t.antenna1()||b.q!=t.antenna2()) continue; vector<Plane> P; int oc=outcome(k,st,s,dsbase+cd+1,P); if(oc!=1){ continue; } string w=compare(t,k,st,s,P); if(w.empty()){ v.push_back(1); found=true; break; } if(why[0]==(char)110&&why[1]==(char)111) why=""; why+="; as sink "+std::to_string(k.node)+": "+w; }
      if(!found) VIOL("output-changed","%s: tile %s of data set %zu: %s",name.c_str(),t.tileId().toString('.').c_str(),cd,why.c_str()); s--; if(s<snip) VIOL("output-order","%s: tile of snippet %d after one of snippet %d",name.c_str(),s,snip); if(s>snip){ for(int q=snip;q<s;q++) if(complete) if(int m=missing(cd,q)) VIOL("output-lost","the request succeeded, but %d tiles of snippet %d of data set %zu are not in %s before the next",m,q,cd,name.c_str()); snip=s; } }
    else VIOL("output-changed","%s: unknown event %s",name.c_str(),ev.toString('.').c_str()); }
  if(complete&&!loose){ if(bad) VIOL("output-lost","the request succeeded, but %s is damaged",name.c_str()); if(cd!=ds.size()) VIOL("output-lost","the request succeeded, but %s has %zu of %zu data sets",name.c_str(),cd,ds.size()); }
  haveall=!bad&&cd==ds.size(); (void)ntile; }
static void startPool(){ nthreads=1+pick(sim_tier()?5:4,"threads"); if(sim_param("threads",0)) nthreads=(int)sim_param("threads",0); if(nthreads>1){ int w=coin(0.5)?nthreads*2-1:(int)pick(nthreads*2); MTPool::start(w,nthreads); MTPool::brigade().join(MTPool::BUSY,0); } }
static void stopPool(){ if(nthreads>1) MTPool::stop(); if(sim_live_fibers(0)>0) { if(!waitFor([]{ return sim_live_fibers(0)==0; },5*SEC)) VIOL("thread-leak","%d threads run after the pool was stopped",sim_live_fibers(0)); } }
static Request::Ref mkReq(int n){ HIID id; id.resize(6); id[0]=RequestType::EVAL; for(int k=1;k<6;k++) id[k]=0; id[2]=n; id[5]=100000+n; Request::Ref q(new Request,DMI::ANON); q().setId(id); return q; }
static void scn(int mode){ // 1: clean streams; 2: damaged streams, failing nodes and handlers; 3: failing disk; 4: aborts
  startPool(); mkForest(mode==2&&coin(0.5)); create(); F->setEventCallback(eventCB); const int C[]={Node::CACHE_NEVER,Node::CACHE_MINIMAL,Node::CACHE_SMART,Node::CACHE_SMART_AGR,Node::CACHE_ALWAYS}; F->setCachePolicy(C[pick(5)]); threadFaults(); NodeFace &mux=F->get(W->mux); 
  int nreq=1+pick(sim_tier()?5:3,"requests"); bool exec_on=false; int ab=0;
  for(int r=0;r<nreq;r++){ mkSets(1+pick(3)); vector<Item> its=plan(); string in="in"+std::to_string(r)+".boio", out="out"+std::to_string(r)+".boio"; int kind=mode==2?(int)pick(9,"damage"):0; bool mustfail=false, mayfail=false, loose=false; int wrongobj=-1; string dropfield; bool hasout=coin(0.85); int dsbase=ds_seen; nlog=0; memset(&ec,0,sizeof ec); py_failed=0; nfailed=0;
    size_t cutat=0; int maxtiles=mode!=4&&coin(0.15)?(int)pick(4):-1; vector<Item> seen=its;
    if(kind==1){ its.pop_back(); mustfail=true; } else if(kind==2){ size_t k=1+pick(its.size()-1); if(its[k].type==0) k=1; its.insert(its.begin()+k,its[0]); mustfail=true; } else if(kind==3){ Item t; bool have=false; for(auto &i:its) if(i.type==1){ t=i; have=true; } if(have){ bool front=coin(0.5); its.insert(front?its.begin():its.end(),t); mustfail=true; } } else if(kind==4){ its.push_back(its.back()); mustfail=true; } else if(kind==5){ its.clear(); mustfail=true; } else if(kind==6){ its.resize(pick(its.size())); if(its.empty()||its.back().type!=2) mustfail=true; }
    // what the stream brings before the first event out of sequence
    { seen.clear(); int st=2; for(auto &i:its){ if(i.type==0?st!=2:st!=0) break; st=i.type==2?2:0; seen.push_back(i); } }
    for(auto &d:DS){ sim_log("data set %d: %d stations, %d x %d",d.id,d.nst,d.nc,d.nf); for(int j=0;j<d.nsnip;j++){ string t; for(int x:d.tiles[j]) t+=std::to_string(x)+" "; sim_log("  snippet %d: seq %d, %d rows, %d..%d valid, baselines %s",j,d.seq[j],d.nt[j],d.r0[j],d.r1[j],t.c_str()); } }
    writeInput(in,its);
    if(mode==2){ if(kind==7){ i64 sz=sim_disk_get(HOST,in.c_str(),0,0); if(sz>0) sim_disk_truncate(HOST,in.c_str(),pick(sz)); size_t n=0; bool torn=false; BOIO f; f.open(in,BOIO::READ); try { ObjRef o; while(f.readAny(o)) n++; } catch(std::exception &e){ torn=true; } if(n>its.size()) VIOL("harness","%zu items in the cut file",n); seen.resize(n); if(n==0||seen.back().type!=2) mustfail=true; else mayfail=true; (void)torn; } if(coin(0.3)) py_fail=0.02+0.1*pick(4); }
    for(auto &i:seen) if(i.type==1&&(maxtiles<0||i.snip<maxtiles)) for(auto &s:W->sp) if(s.ifr==i.ifr) for(int c:s.corr) if(c>=DS[i.ds].nc) mustfail=true;
    DMI::Record::Ref ir(DMI::ANONWR), orr(DMI::ANONWR); { DMI::Record::Ref b(DMI::ANONWR); b()[AppEvent::FBOIOFileName]=in; if(coin(0.5)) b()[AppEvent::FBOIOFileMode]=string("R"); ir()[AidBOIO]<<=b; if(maxtiles>=0) ir()[AidMax|AidTiles]=maxtiles; DMI::Record::Ref o(DMI::ANONWR); o()[AppEvent::FBOIOFileName]=out; o()[AppEvent::FBOIOFileMode]=string("W"); orr()[AidBOIO]<<=o; }
    Request::Ref req=mkReq(r+1); req()[AidInput]<<=ir; if(hasout) req()[AidOutput]<<=orr;
    bool diskfault=false; if(mode==3&&coin(0.8)){ diskfault=true; int q=pick(4,"diskfault"); if(q==0) sim_faults.disk_read_err=0.01+0.05*pick(4); else if(q==1) sim_faults.disk_write_err=0.01+0.05*pick(4); else if(q==2) sim_faults.disk_quota=pick(1<<(6+pick(10))); else sim_faults.disk_short=0.2; }
    if(mode==4&&r<nreq-1&&coin(0.7)){ ab++; exec_on=true; u64 dt=pick(1<<(8+pick(18)))*1000ull/100; int ev=coin(0.5)?1+(int)pick(60):0; spawn("abort",[=,&exec_on]{ if(ev) waitFor([=,&exec_on]{ return nlog>=ev||!exec_on; },100*SEC); else sim_sleep_ns(dt); if(exec_on){ abort_late=ec.closed>0; F->raiseAbortFlag(); } }); }
    Result::Ref ref; u64 t0=sim_now_ns(); int rc=mux.execute(ref,*req,0); exec_on=false; bool aborted=F->abortFlag(); F->clearAbortFlag(); bool pf=py_failed>0; py_fail=0; sim_faults.disk_read_err=sim_faults.disk_write_err=sim_faults.disk_short=0; sim_faults.disk_quota=-1; (void)t0;
    bool failed=rc&Node::RES_FAIL; sim_log("request %d: %zu items (%zu in sequence), damage %d, rc %x, %d threads%s",r,its.size(),seen.size(),kind,rc,nthreads,aborted?", aborted":"");
    if(ref.valid()&&failed&&!(rc&Node::RES_ABORT)&&ref->numFails()==0) VIOL("no-reason","request %d fails without saying why",r);
    // the streams came in order: what each sink must do
    int nh=0,nf=0,nsn=0,nch=0; for(auto &i:seen){ nh+=i.type==0; nf+=i.type==2; } for(auto &d:DS) (void)d; set<std::pair<int,int>> sn; bool sinkfail=false; int base=dsbase; { int dsn=-1; for(auto &i:seen){ if(i.type==0) dsn++; if(i.type==1&&(maxtiles<0||i.snip<maxtiles)){ sn.insert({dsn,i.snip}); for(auto &k:W->sk) if(k.ifr==i.ifr){ vector<Plane> P; if(outcome(k,DS[i.ds],i.snip,base+dsn+1,P)<0) sinkfail=true; } } } }
    if(kind==1||kind==2||kind==3||kind==6||kind==7) sinkfail=sinkfail&&failed; // the last snippet may not have been reached
    if(sinkfail) mustfail=true; if(pf) mustfail=true; if(W->sk.empty()) {}
    if(ec.open!=ec.closed||(ec.open!=1&&!aborted)) VIOL("progress-events","request %d: %d channel-open and %d channel-closed events were posted (%s)",r,ec.open,ec.closed,ref.valid()&&failed?failText(*ref).c_str():"");
    if(aborted){ if(!abort_late&&!(rc&(Node::RES_ABORT|Node::RES_FAIL))) VIOL("abort-ignored","request %d was aborted, but returns %x",r,rc); }
    else if(diskfault){ mayfail=true; }
    if(!aborted){ if(failed&&!mustfail&&!mayfail){ string why=ref.valid()&&ref->numFails()?failText(*ref):""; VIOL("false-failure","request %d fails on a good stream: %s",r,why.c_str()); } if(!failed&&mustfail) VIOL("failure-unreported","request %d: %s, but it reports success",r,pf?"a handler failed":sinkfail?"a node failed":"the stream was damaged"); }
    bool ok=!failed&&!aborted; 
    if(ok){ (void)nsn; (void)nch; if(ec.header!=nh||ec.footer!=nf) VIOL("progress-events","request %d: %d headers and %d footers announced, the stream had %d and %d",r,ec.header,ec.footer,nh,nf); if(maxtiles<0){ if(ec.tiles!=(int)sn.size()) VIOL("progress-events","request %d: %d tile events, %zu snippets",r,ec.tiles,sn.size()); const Set &d=DS[seen.back().ds]; int n=0,c=0; for(auto &i:seen) if(i.ds==seen.back().ds){ if(i.type==0) n=c=0; if(i.type==1) c++; } n=0; set<int> q; for(auto &i:seen) if(i.ds==seen.back().ds&&i.type==1) q.insert(i.snip); n=q.size(); (void)d; if(ec.nt!=n||ec.nc!=c) VIOL("progress-events","request %d: the last footer reports %d tiles and %d chunks instead of %d and %d",r,ec.nt,ec.nc,n,c); } 
      // order of the evaluations of every snippet
      map<std::pair<int,int>,vector<Ev*>> by; for(int k=0;k<nlog;k++){ Ev *e=&LOG[k]; by[{e->ds-base-1,e->dom}].push_back(e); } 
      for(auto &p:sn){ auto &v=by[p]; u64 t[3][2]; int cnt[3]={0,0,0}; for(auto e:v) for(int k=0;k<3;k++) if(e->node==W->trio[k]){ cnt[k]++; t[k][0]=e->t0; t[k][1]=e->t1; } for(int k=0;k<3;k++) if(W->trio[k]>0&&cnt[k]!=1) VIOL("snippet-order","request %d: the %s child was evaluated %d times for snippet %d of data set %d",r,k==0?"start":k==1?"pre":"post",cnt[k],p.second,p.first);
        for(auto e:v){ bool tr=false; for(int k=0;k<3;k++) if(e->node==W->trio[k]) tr=true; for(int k=0;k<3;k++) if(cnt[k]&&e->node!=W->trio[k]){ bool before=tr?(e->node==W->trio[0]||(k==2)):k==2; if(tr&&k==0) before=false; if(before?e->t1>t[k][0]:e->t0<t[k][1]) VIOL("snippet-order","request %d: node %d was evaluated on the wrong side of the %s child in snippet %d of data set %d",r,e->node,k==0?"start":k==1?"pre":"post",p.second,p.first); }
          const Nd &n=W->nd[e->node]; if(n.ifr>=0){ bool have=false; int dd=-1; for(auto &i:seen){ if(i.type==0) dd++; if(i.type==1&&dd==p.first&&i.snip==p.second&&i.ifr==n.ifr) have=true; } if(!have) VIOL("snippet-order","request %d: node %d was evaluated for snippet %d, which has no tile for it",r,e->node,p.second); } } }
      for(auto &b:by) if(!sn.count(b.first)) VIOL("snippet-order","request %d: nodes were evaluated for snippet %d of data set %d, which was not there",r,b.first.second,b.first.first); }
    bool all=false; if(hasout) checkOutput(out,seen,dsbase,maxtiles,ok,loose,all); sim_state(H(r,rc,kind,ab,all)); }
  F->setEventCallback(0); stopPool(); sim_pass(); }
extern "C" void node_main(int,void*){ AtomicID::registerId(-20001,"SimVis"); DMI::DynamicTypeManager::addToRegistry(DMI::TypeId("SimVis"),&mkVis); DMI::DynamicTypeManager::addToRegistry(DMI::TypeId("MeqVisDataMux"),&mkMux); DMI::DynamicTypeManager::addToRegistry(DMI::TypeId("MeqSpigot"),&mkSpigot); DMI::DynamicTypeManager::addToRegistry(DMI::TypeId("MeqSink"),&mkSink);
  try { scn((int)sim_param("scn",1)); } catch(std::exception &e){ VIOL("exception","%s",exceptionToString(e).c_str()); } }
