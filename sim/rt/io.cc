// Simulated network and disk behind the system-call interface.
#include "rt.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <netdb.h>
#include <dirent.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/mman.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <algorithm>

//================================================================= objects
struct Seg { int kind; std::string data; };    // 0 data 1 fin 2 rst
struct Sock { int id; int node; std::string host; int family; int type; bool nonblock=false;
  enum St { NEW,BOUND,LISTEN,CONNECTING,EST,CLOSED } st=NEW; std::string addr; int err=0;
  Sock *peer=nullptr; std::deque<char> rx; bool conn_seen=false, nonblock_conn=false; bool rx_fin=false, tx_shut=false, rx_shut=false, closed=false, rst=false;
  std::deque<Seg> wire; u64 wire_bytes=0; u64 last_arr=0;     // towards the peer
  std::deque<Sock*> acceptq; int backlog=5; Sock *listener=nullptr; };
static std::vector<Sock*> socks; static std::map<std::string,Sock*> listeners;  // key: "host|unix:name" or "host|tcp:port"
struct Inode { std::string path; char *data=nullptr; u64 size=0; bool dir=false; int nlink=1; u64 ino=0; Fiber *flock_owner=nullptr; int lock_excl=0; const void *lock_file=nullptr; u64 mtime=0; std::map<const void*,int> locks; };
struct OpenFile { Inode *in; u64 off=0; int flags=0; int refs=1; int node=0; };
struct FdEnt { int kind=0; Sock *s=nullptr; OpenFile *f=nullptr; int real=-1; };   // 1 sock 2 file 3 pass-through
struct FdTab { FdEnt e[1024]; };
static FdTab *tab(){ NodeP *p=curnode(); if(!p->fds){ p->fds=new FdTab; } return p->fds; }
static int newfd(FdEnt e){ FdTab *t=tab(); for(int i=3;i<1000;i++) if(!t->e[i].kind){ t->e[i]=e; return i; } errno=EMFILE; return -1; }
static FdEnt *fd_(int fd){ if(fd<0||fd>=1024) return nullptr; FdEnt *e=&tab()->e[fd]; return e->kind?e:nullptr; }
static FdEnt *sockfd(int fd){ FdEnt *e=fd_(fd); if(!e){ errno=EBADF; return nullptr; } if(e->kind!=1){ errno=ENOTSOCK; return nullptr; } return e; }
static std::set<std::pair<std::string,std::string>> parts;
static bool parted(const std::string&a,const std::string&b){ return a!=b&&parts.count(a<b?std::make_pair(a,b):std::make_pair(b,a)); }
static u64 lat(const std::string&a,const std::string&b){ u64 lo=sim_faults.net_lat_min,hi=sim_faults.net_lat_max; if(a==b){ lo/=4; hi/=4; } if(hi<=lo||g_calm) return lo; return lo+decision(64,[&]{ return rng_next()%64; })*((hi-lo)/64); }
//================================================================= network
static void arrive(Sock *from);
static void push_seg(Sock *from,int kind,std::string d){ from->wire_bytes+=d.size(); from->wire.push_back({kind,std::move(d)}); u64 at=g_now+lat(from->host,from->peer->host); if(at<from->last_arr) at=from->last_arr; from->last_arr=at; add_event(at,[from]{ arrive(from); }); }
static void arrive(Sock *from){ Sock *to=from->peer; if(from->wire.empty()) return;
  if(parted(from->host,to->host)){ add_event(g_now+5000000,[from]{ arrive(from); }); return; }
  Seg sg=std::move(from->wire.front()); from->wire.pop_front(); from->wire_bytes-=sg.data.size();
  mix(0xA221+sg.data.size());
  if(sg.kind==2){ to->rst=true; to->rx.clear(); if(!to->err) to->err=ECONNRESET; }
  else if(sg.kind==1) to->rx_fin=true;
  else { if(to->closed||to->rx_shut){ if(to->closed&&!from->rst){ from->rst=true; if(!from->err) from->err=EPIPE; } } else to->rx.insert(to->rx.end(),sg.data.begin(),sg.data.end()); }
  io_poke(); }
static u64 room(Sock *s){ u64 used=s->wire_bytes+(s->peer?s->peer->rx.size():0); u64 cap=sim_faults.net_sndbuf?sim_faults.net_sndbuf:65536; return used<cap?cap-used:0; }
static bool readable(Sock *s){ if(s->st==Sock::LISTEN) return !s->acceptq.empty(); if(s->st==Sock::CONNECTING) return false; return !s->rx.empty()||s->rx_fin||s->rst||s->err||s->st!=Sock::EST||s->rx_shut; }
static bool writable(Sock *s){ if(s->st==Sock::LISTEN||s->st==Sock::CONNECTING) return false; if(s->st!=Sock::EST) return true; return s->rst||s->err||s->tx_shut||(s->peer&&s->peer->closed&&s->rst)||room(s)>0; }
static void sock_close(Sock *s){ if(s->closed) return; s->closed=true; rlog("socket s%d closed",s->id);
  if(s->st==Sock::LISTEN){ auto it=listeners.find(s->addr); if(it!=listeners.end()&&it->second==s) listeners.erase(it); for(auto a:s->acceptq){ push_seg(a,2,""); a->closed=true; } s->acceptq.clear(); }
  else if(s->st==Sock::BOUND){ auto it=listeners.find(s->addr); if(it!=listeners.end()&&it->second==s) listeners.erase(it); }
  else if(s->st==Sock::EST&&s->peer){ if(!s->rx.empty()) push_seg(s,2,""); else if(!s->tx_shut) push_seg(s,1,""); }
  s->st=Sock::CLOSED; io_poke(); }
static std::string addr_key(const std::string &host,const struct sockaddr *a,socklen_t len,std::string *tohost){
  if(a->sa_family==AF_UNIX){ const sockaddr_un *u=(const sockaddr_un*)a; size_t n=len>offsetof(sockaddr_un,sun_path)?len-offsetof(sockaddr_un,sun_path):0; if(n>sizeof u->sun_path) n=sizeof u->sun_path; std::string p;
    if(n&&u->sun_path[0]==0) p="@"+std::string(u->sun_path+1,n-1); else p=std::string(u->sun_path,strnlen(u->sun_path,n)); if(tohost) *tohost=host; return host+"|unix:"+p; }
  const sockaddr_in *in=(const sockaddr_in*)a; u32 ip=ntohl(in->sin_addr.s_addr); std::string h=host; if(ip!=0&&ip!=0x7f000001){ char b[32]; snprintf(b,sizeof b,"h%u",ip&0xff); h=b; } if(tohost) *tohost=h; return h+"|tcp:"+std::to_string(ntohs(in->sin_port)); }
static bool eintr(){ if(cur->harness) return false; NodeP *p=curnode(); (void)p; if(flip(sim_faults.net_eintr,"eintr")){ errno=EINTR; return true; } return false; }
static u64 g_connects=0;
static void do_connect_result(Sock *s,std::string key,std::string tohost,int tries){
  if(s->closed||s->st!=Sock::CONNECTING) return;
  if(parted(s->host,tohost)){ if(tries>40){ s->err=ETIMEDOUT; s->st=Sock::NEW; io_poke(); return; } add_event(g_now+500000000ull,[=]{ do_connect_result(s,key,tohost,tries+1); }); return; }
  auto it=listeners.find(key); if(it==listeners.end()||it->second->st!=Sock::LISTEN){ s->err=ECONNREFUSED; s->st=Sock::NEW; mix(0xC0); io_poke(); return; }
  Sock *l=it->second; if((int)l->acceptq.size()>l->backlog){ if(tries>40){ s->err=ETIMEDOUT; s->st=Sock::NEW; io_poke(); return; } add_event(g_now+100000000ull,[=]{ do_connect_result(s,key,tohost,tries+1); }); return; }
  g_connects++; Sock *a=new Sock; a->id=socks.size(); socks.push_back(a); a->node=l->node; a->host=l->host; a->family=s->family; a->type=s->type; a->st=Sock::EST; a->peer=s; s->peer=a; s->st=Sock::EST; l->acceptq.push_back(a); rlog("connection s%d (%s) -> s%d (%s)",s->id,s->host.c_str(),a->id,key.c_str()); io_poke(); }
extern "C" {
int socket(int fam,int type,int proto){ if(!g_sim) return REAL(socket)(fam,type,proto); sched_point(__builtin_return_address(0)); Sock *s=new Sock; s->id=socks.size(); socks.push_back(s); s->node=cur->node; s->host=curnode()->host; s->family=fam; s->type=type&0xf; s->nonblock=type&SOCK_NONBLOCK; FdEnt e; e.kind=1; e.s=s; return newfd(e); }
int bind(int fd,const struct sockaddr *a,socklen_t len){ if(!g_sim) return REAL(bind)(fd,a,len); FdEnt *e=sockfd(fd); if(!e) return -1; std::string k=addr_key(e->s->host,a,len,nullptr); if(listeners.count(k)){ errno=EADDRINUSE; return -1; } e->s->addr=k; e->s->st=Sock::BOUND; listeners[k]=e->s; rlog("bind s%d %s",e->s->id,k.c_str()); return 0; }
int listen(int fd,int bl){ if(!g_sim) return REAL(listen)(fd,bl); FdEnt *e=sockfd(fd); if(!e) return -1; e->s->st=Sock::LISTEN; e->s->backlog=bl; return 0; }
int accept(int fd,struct sockaddr *a,socklen_t *len){ if(!g_sim) return REAL(accept)(fd,a,len); sched_point(__builtin_return_address(0)); cancel_point(); FdEnt *e=sockfd(fd); if(!e) return -1; Sock *s=e->s; if(s->st!=Sock::LISTEN){ errno=EINVAL; return -1; }
  if(eintr()) return -1;
  if(s->acceptq.empty()){ if(s->nonblock){ errno=EAGAIN; return -1; } if(!wait_io([s]{ return !s->acceptq.empty()||s->closed; },0,true)){ errno=EINTR; return -1; } if(s->closed){ errno=EBADF; return -1; } }
  if(!cur->harness&&flip(sim_faults.accept_fail,"accept_fail")){ Sock *x=s->acceptq.front(); s->acceptq.pop_front(); push_seg(x,2,""); x->closed=true; errno=ECONNABORTED; return -1; }
  Sock *n=s->acceptq.front(); s->acceptq.pop_front(); FdEnt ne; ne.kind=1; ne.s=n; if(a&&len){ memset(a,0,*len); a->sa_family=s->family; } int r=newfd(ne); rlog("accept s%d -> fd %d",n->id,r); return r; }
int connect(int fd,const struct sockaddr *a,socklen_t len){ if(!g_sim) return REAL(connect)(fd,a,len); sched_point(__builtin_return_address(0)); cancel_point(); FdEnt *e=sockfd(fd); if(!e) return -1; Sock *s=e->s;
  if(s->st==Sock::EST){ if(s->listener==nullptr&&!s->conn_seen&&s->nonblock_conn){ s->conn_seen=true; return 0; } errno=EISCONN; return -1; } if(s->st==Sock::CONNECTING){ errno=EALREADY; return -1; }
  if(s->err){ errno=s->err; s->err=0; return -1; }
  std::string th; std::string k=addr_key(s->host,a,len,&th);
  if(!cur->harness&&flip(sim_faults.conn_refuse,"connect_refused")){ errno=ECONNREFUSED; return -1; }
  if(s->family==AF_UNIX){ auto it=listeners.find(k); if(it==listeners.end()||it->second->st!=Sock::LISTEN){ errno=k.find("unix:@")!=std::string::npos?ECONNREFUSED:ENOENT; return -1; }
    Sock *l=it->second; if((int)l->acceptq.size()>l->backlog){ if(s->nonblock){ errno=EAGAIN; return -1; } if(!wait_io([=]{ return l->closed||(int)l->acceptq.size()<=l->backlog; },0,true)){ errno=EINTR; return -1; } }
    s->st=Sock::CONNECTING; do_connect_result(s,k,th,100); if(s->st==Sock::EST) return 0; errno=s->err; s->err=0; return -1; }
  s->st=Sock::CONNECTING; add_event(g_now+lat(s->host,th)*2,[=]{ do_connect_result(s,k,th,0); });
  if(s->nonblock){ s->nonblock_conn=true; errno=EINPROGRESS; return -1; }
  if(!wait_io([s]{ return s->st!=Sock::CONNECTING; },0,true)){ errno=EINTR; return -1; }
  if(s->st==Sock::EST) return 0; errno=s->err?s->err:ECONNREFUSED; s->err=0; return -1; }
int shutdown(int fd,int how){ if(!g_sim) return REAL(shutdown)(fd,how); sched_point(__builtin_return_address(0)); FdEnt *e=sockfd(fd); if(!e) return -1; Sock *s=e->s; if(s->st!=Sock::EST){ if(s->st==Sock::LISTEN){ s->rx_shut=true; io_poke(); } errno=ENOTCONN; return -1; }
  if(how==SHUT_WR||how==SHUT_RDWR){ if(!s->tx_shut){ s->tx_shut=true; push_seg(s,1,""); } } if(how==SHUT_RD||how==SHUT_RDWR){ s->rx_shut=true; } io_poke(); return 0; }
int setsockopt(int fd,int l,int o,const void *v,socklen_t n){ if(!g_sim) return REAL(setsockopt)(fd,l,o,v,n); return sockfd(fd)?0:-1; }
int getsockopt(int fd,int l,int o,void *v,socklen_t *n){ if(!g_sim) return REAL(getsockopt)(fd,l,o,v,n); FdEnt *e=sockfd(fd); if(!e) return -1; if(o==SO_ERROR){ *(int*)v=e->s->err; e->s->err=0; *n=sizeof(int); } else { memset(v,0,*n); } return 0; }
int getpeername(int fd,struct sockaddr *a,socklen_t *n){ if(!g_sim) return REAL(getpeername)(fd,a,n); FdEnt *e=sockfd(fd); if(!e) return -1; if(e->s->st!=Sock::EST){ errno=ENOTCONN; return -1; } memset(a,0,*n); a->sa_family=e->s->family; return 0; }
static ssize_t sk_recv(FdEnt *e,void *buf,size_t n,int flags){ Sock *s=e->s;
  if(s->st==Sock::LISTEN||s->st==Sock::NEW||s->st==Sock::BOUND||s->st==Sock::CONNECTING){ if(s->st==Sock::CONNECTING){ errno=EAGAIN; return -1;} if(s->err){ errno=s->err; s->err=0; return -1; } errno=ENOTCONN; return -1; }
  if(eintr()) return -1;
  if(!cur->harness&&flip(sim_faults.net_reset,"conn_reset")){ s->rst=true; s->err=ECONNRESET; if(s->peer){ push_seg(s,2,""); } }
  if(s->rx.empty()&&!s->rx_fin&&!s->rst&&!s->err&&!s->rx_shut){ if(s->nonblock||(flags&MSG_DONTWAIT)){ errno=EAGAIN; return -1; } if(!wait_io([s]{ return readable(s)||s->closed; },0,true)){ errno=EINTR; return -1; } if(s->closed){ errno=EBADF; return -1; } }
  if(s->err){ errno=s->err; s->err=0; return -1; }
  if(s->rx.empty()){ if(s->rst&&!s->rx_fin){ errno=ECONNRESET; return -1; } return 0; }
  size_t k=std::min(n,s->rx.size()); if(k>1&&!cur->harness&&flip(sim_faults.net_short,"short_read")) k=1+choose(k>64?64:k-1);
  std::copy(s->rx.begin(),s->rx.begin()+k,(char*)buf); if(!(flags&MSG_PEEK)){ s->rx.erase(s->rx.begin(),s->rx.begin()+k); io_poke(); } return k; }
static ssize_t sk_send(FdEnt *e,const void *buf,size_t n,int flags){ Sock *s=e->s;
  if(s->st!=Sock::EST){ errno=s->st==Sock::CONNECTING?EAGAIN:ENOTCONN; return -1; }
  if(eintr()) return -1;
  if(!cur->harness&&flip(sim_faults.net_reset,"conn_reset")){ s->rst=true; s->err=ECONNRESET; if(s->peer) push_seg(s,2,""); }
  auto pipe_=[&]()->ssize_t{ if(!(flags&MSG_NOSIGNAL)) raise(SIGPIPE); errno=EPIPE; return -1; };
  if(s->err){ int er=s->err; s->err=0; if(er==EPIPE) return pipe_(); errno=er; return -1; }
  if(s->tx_shut||s->rst) return pipe_();
  if(n==0) return 0;
  size_t done=0; const char *b=(const char*)buf;
  while(done<n){ if(room(s)==0){ if(s->nonblock||(flags&MSG_DONTWAIT)){ if(done) return done; errno=EAGAIN; return -1; } if(!wait_io([s]{ return writable(s)||s->closed; },0,true)){ if(done) return done; errno=EINTR; return -1; } if(s->closed){ errno=EBADF; return -1; } if(s->rst||s->err||s->tx_shut){ if(done) return done; int er=s->err; s->err=0; if(er&&er!=EPIPE){ errno=er; return -1; } return pipe_(); } }
    size_t k=std::min<size_t>(n-done,room(s)); bool sh=false; if(k>1&&!cur->harness&&flip(sim_faults.net_short,"short_write")){ k=1+choose(k>64?64:k-1); sh=true; }
    push_seg(s,0,std::string(b+done,k)); done+=k; if(sh) break; }
  return done; }
static ssize_t file_read(OpenFile *f,void *buf,size_t n); static ssize_t file_write(OpenFile *f,const void *buf,size_t n);
ssize_t read(int fd,void *buf,size_t n){ if(!g_sim) return syscall(SYS_read,fd,buf,n); sched_point(__builtin_return_address(0)); cancel_point(); FdEnt *e=fd_(fd); if(!e){ errno=EBADF; return -1; } if(e->kind==1) return sk_recv(e,buf,n,0); if(e->kind==3) return syscall(SYS_read,e->real,buf,n); return file_read(e->f,buf,n); }
ssize_t write(int fd,const void *buf,size_t n){ if(!g_sim) return syscall(SYS_write,fd,buf,n); if(fd==1||fd==2){ FdEnt *e=fd_(fd); if(!e) return n; } sched_point(__builtin_return_address(0)); cancel_point(); FdEnt *e=fd_(fd); if(!e){ errno=EBADF; return -1; } if(e->kind==1) return sk_send(e,buf,n,0); if(e->kind==3){ errno=EBADF; return -1; } return file_write(e->f,buf,n); }
ssize_t recv(int fd,void *buf,size_t n,int fl){ if(!g_sim) return REAL(recv)(fd,buf,n,fl); sched_point(__builtin_return_address(0)); cancel_point(); FdEnt *e=sockfd(fd); if(!e) return -1; return sk_recv(e,buf,n,fl); }
ssize_t send(int fd,const void *buf,size_t n,int fl){ if(!g_sim) return REAL(send)(fd,buf,n,fl); sched_point(__builtin_return_address(0)); cancel_point(); FdEnt *e=sockfd(fd); if(!e) return -1; return sk_send(e,buf,n,fl); }
ssize_t recvfrom(int fd,void *b,size_t n,int fl,struct sockaddr*,socklen_t*){ return recv(fd,b,n,fl); }
ssize_t sendto(int fd,const void *b,size_t n,int fl,const struct sockaddr*,socklen_t){ return send(fd,b,n,fl); }
ssize_t __recv_chk(int fd,void *b,size_t n,size_t,int fl){ return recv(fd,b,n,fl); }
ssize_t __read_chk(int fd,void *b,size_t n,size_t){ return read(fd,b,n); }
static bool rdy(FdEnt *e,int want){ if(e->kind!=1) return want!=4; Sock *s=e->s; if(want==1) return readable(s); if(want==2) return writable(s); return false; }
static int sel_body(int nfds,fd_set *r,fd_set *w,fd_set *x,struct timeval *tv);
int select(int nfds,fd_set *r,fd_set *w,fd_set *x,struct timeval *tv){ if(!g_sim) return REAL(select)(nfds,r,w,x,tv); sched_point(__builtin_return_address(0)); cancel_point(); return sel_body(nfds,r,w,x,tv); }
static int sel_body(int nfds,fd_set *r,fd_set *w,fd_set *x,struct timeval *tv){
  std::vector<std::pair<int,int>> in; for(int i=0;i<nfds;i++){ if(r&&FD_ISSET(i,r)) in.push_back({i,1}); if(w&&FD_ISSET(i,w)) in.push_back({i,2}); if(x&&FD_ISSET(i,x)) in.push_back({i,4}); }
  for(auto &p:in) if(!fd_(p.first)){ errno=EBADF; rlog("select: bad fd %d",p.first); return -1; }
  if(eintr()) return -1;
  std::vector<FdEnt> es; for(auto &p:in) es.push_back(*fd_(p.first));
  auto ready=[&]{ for(size_t i=0;i<in.size();i++) if(rdy(&es[i],in[i].second)||(es[i].kind==1&&es[i].s->closed&&0)) return true; return false; };
  u64 dl=0; if(tv){ if(tv->tv_sec<0||tv->tv_usec<0||tv->tv_usec>=1000000){ errno=EINVAL; return -1; } dl=g_now+(u64)tv->tv_sec*1000000000ull+(u64)tv->tv_usec*1000; if(!dl) dl=1; }
  bool ok=wait_io(ready,dl,true); if(!ok&&cur->interrupted){ errno=EINTR; return -1; }
  if(r) FD_ZERO(r); if(w) FD_ZERO(w); if(x) FD_ZERO(x); int n=0;
  if(ok) for(size_t i=0;i<in.size();i++) if(rdy(&es[i],in[i].second)){ n++; FD_SET(in[i].first,in[i].second==1?r:in[i].second==2?w:x); }
  mix(0x5e1+n); return n; }
int pselect(int nfds,fd_set *r,fd_set *w,fd_set *x,const struct timespec *ts,const sigset_t *mask){ if(!g_sim) return REAL(pselect)(nfds,r,w,x,ts,mask);
  sched_point(__builtin_return_address(0)); sigset_t old; u64 om=cur->sigmask; if(mask){ u64 m=0; for(int i=1;i<64;i++) if(sigismember(mask,i)==1) m|=1ull<<i; cur->sigmask=m; take_node_pending(); } (void)old;
  struct timeval tv,*ptv=nullptr; if(ts){ if(ts->tv_nsec<0||ts->tv_nsec>999999999||ts->tv_sec<0){ cur->sigmask=om; errno=EINVAL; return -1; } tv.tv_sec=ts->tv_sec; tv.tv_usec=(ts->tv_nsec+999)/1000; if(tv.tv_usec>=1000000){ tv.tv_usec-=1000000; tv.tv_sec++; } ptv=&tv; }
  cancel_point(); int n=sel_body(nfds,r,w,x,ptv); int e=errno; if(cur->sigpend&~cur->sigmask) run_signals(); cur->sigmask=om; errno=e; return n; }
int socketpair(int fam,int type,int proto,int fds[2]){ if(!g_sim) return REAL(socketpair)(fam,type,proto,fds); Sock *a=new Sock,*b=new Sock; for(Sock*s:{a,b}){ s->id=socks.size(); socks.push_back(s); s->node=cur->node; s->host=curnode()->host; s->family=fam; s->type=type&0xf; s->st=Sock::EST; } a->peer=b; b->peer=a; FdEnt e; e.kind=1; e.s=a; fds[0]=newfd(e); e.s=b; fds[1]=newfd(e); return 0; }
int pipe(int fds[2]){ if(!g_sim) return REAL(pipe)(fds); int r=socketpair(AF_UNIX,SOCK_STREAM,0,fds); return r; }
int poll(struct pollfd *p,nfds_t n,int ms){ if(!g_sim) return REAL(poll)(p,n,ms); sched_point(__builtin_return_address(0)); cancel_point(); if(eintr()) return -1;
  auto ev=[&](bool set){ int c=0; for(nfds_t i=0;i<n;i++){ short re=0; if(p[i].fd<0){ if(set) p[i].revents=0; continue; } FdEnt *e=fd_(p[i].fd); if(!e) re=POLLNVAL; else { if((p[i].events&(POLLIN|POLLRDNORM))&&rdy(e,1)) re|=p[i].events&(POLLIN|POLLRDNORM); if((p[i].events&(POLLOUT|POLLWRNORM))&&rdy(e,2)) re|=p[i].events&(POLLOUT|POLLWRNORM); if(e->kind==1&&e->s->err) re|=POLLERR; if(e->kind==1&&e->s->rst) re|=POLLHUP; } if(re) c++; if(set) p[i].revents=re; } return c; };
  u64 dl=ms<0?0:g_now+(u64)ms*1000000; if(ms>=0&&!dl) dl=1; bool ok=wait_io([&]{ return ev(false)>0; },dl,true); if(!ok&&cur->interrupted){ errno=EINTR; return -1; } return ev(true); }
int __poll_chk(struct pollfd *p,nfds_t n,int ms,size_t){ return poll(p,n,ms); }
long __fdelt_chk(long d){ if(d<0||d>=FD_SETSIZE) violation("fd-set-overflow","FD_SET on descriptor %ld: %s",d,backtrace_str().c_str()); return d/64; }
static struct hostent he; static char *he_list[2]; static char he_addr[4]; static char *he_alias[1]={0};
struct hostent *gethostbyname(const char *n){ if(!g_sim) return REAL(gethostbyname)(n); int k=0; if(!strcmp(n,"localhost")){ he_addr[0]=127; he_addr[1]=0; he_addr[2]=0; he_addr[3]=1; } else if(n[0]=='h'&&(k=atoi(n+1))>0){ he_addr[0]=10; he_addr[1]=0; he_addr[2]=0; he_addr[3]=k; } else return nullptr; he.h_name=(char*)n; he.h_aliases=he_alias; he.h_addrtype=AF_INET; he.h_length=4; he_list[0]=he_addr; he_list[1]=0; he.h_addr_list=he_list; return &he; }
struct servent *getservbyname(const char *n,const char *p){ if(!g_sim) return REAL(getservbyname)(n,p); return nullptr; }
static struct protoent pe; struct protoent *getprotobyname(const char *n){ if(!g_sim) return REAL(getprotobyname)(n); pe.p_name=(char*)n; pe.p_proto=6; return &pe; }
void sim_net_partition(const char *a,const char *b,int on){ std::string x=a,y=b; if(y<x) std::swap(x,y); if(on){ parts.insert({x,y}); fault_fired("partition"); } else if(parts.erase({x,y})) fault_fired("partition_heal"); rlog("partition %s|%s %s",a,b,on?"on":"off"); }
void sim_net_reset_all(const char *a,const char *b){ int n=0; for(auto s:socks) if(s->st==Sock::EST&&s->peer&&s->host==a&&s->peer->host==b&&!s->closed&&!s->rst){ for(Sock*q:{s,s->peer}){ q->rst=true; q->rx.clear(); if(!q->err) q->err=ECONNRESET; q->wire.clear(); q->wire_bytes=0; } n++; } if(n){ fault_fired("conn_reset"); rlog("reset %d connections %s-%s",n,a,b); io_poke(); } }
u64 sim_net_connects(){ return g_connects; }
int sim_net_open_conns(int node){ int n=0; for(auto s:socks) if(s->node==node&&s->st==Sock::EST&&!s->closed&&!s->rst) n++; return n; }
}
//================================================================= disk
static std::map<std::string,Inode*> fsmap; static u64 ino_next=100; static u64 map_next=0x140000000000ull; static const u64 FMAX=64ull<<20;
static bool passthru(const std::string &p){ return p.compare(0,5,"/sim/")!=0&&p!="/sim"; }
static std::string absp(const char *p){ std::string s=p; if(s.empty()||s[0]!='/') s=curnode()->cwd+"/"+s; else if(passthru(s)) return s; 
  std::string o; size_t i=0; while(i<s.size()){ size_t j=s.find('/',i); if(j==std::string::npos) j=s.size(); std::string c=s.substr(i,j-i); i=j+1; if(c.empty()||c==".") continue; if(c==".."){ size_t k=o.rfind('/'); if(k!=std::string::npos) o.resize(k); continue; } o+="/"+c; } return o; }
static Inode *mkino(const std::string &p,bool dir){ Inode *i=new Inode; i->path=p; i->dir=dir; i->ino=ino_next++; i->mtime=g_now/1000000000; if(!dir){ i->data=(char*)mmap((void*)map_next,FMAX,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); map_next+=FMAX; } fsmap[p]=i; return i; }
static Inode *look(const std::string &p){ auto it=fsmap.find(p); if(it!=fsmap.end()) return it->second; if(p=="/sim") return mkino(p,true); for(auto n:nodes) if(p==n->cwd) return mkino(p,true); return nullptr; }
static Inode *parent_dir(const std::string &p){ size_t k=p.rfind('/'); std::string d=p.substr(0,k); if(d.empty()) return nullptr; Inode *i=look(d); return i&&i->dir?i:nullptr; }
static OpenFile *fopen_(const std::string &p,int flags){ Inode *i=look(p);
  if(i&&i->dir){ if((flags&O_ACCMODE)!=O_RDONLY){ errno=EISDIR; return nullptr; } }
  if(!i){ if(!(flags&O_CREAT)){ errno=ENOENT; return nullptr; } if(!parent_dir(p)){ errno=ENOENT; return nullptr; } if(sim_faults.disk_quota==0&&!cur->harness){ errno=ENOSPC; fault_fired("disk_full"); return nullptr; } i=mkino(p,false); rlog("file %s created",p.c_str()); }
  else if((flags&O_CREAT)&&(flags&O_EXCL)){ errno=EEXIST; return nullptr; }
  if((flags&O_TRUNC)&&(flags&O_ACCMODE)!=O_RDONLY){ if(sim_faults.disk_quota>=0) sim_faults.disk_quota+=i->size; memset(i->data,0,i->size); i->size=0; }
  OpenFile *f=new OpenFile; f->in=i; f->flags=flags; f->node=cur->node; return f; }
static ssize_t do_write(OpenFile *f,const void *buf,size_t n){ Inode *i=f->in; u64 off=(f->flags&O_APPEND)?i->size:f->off; if(off+n>FMAX){ errno=EFBIG; return -1; }
  if((f->flags&O_ACCMODE)==O_RDONLY){ errno=EBADF; return -1; }
  if(!cur->harness){
    if(flip(sim_faults.disk_write_err,"disk_write_error")){ errno=EIO; return -1; }
    if(n>1&&flip(sim_faults.disk_short,"disk_short_write")) n=1+choose(n-1);
    if(sim_faults.disk_quota>=0){ u64 grow=off+n>i->size?off+n-i->size:0; if((i64)grow>sim_faults.disk_quota){ u64 can=n-(grow-sim_faults.disk_quota); fault_fired("disk_full"); if((i64)can<=0||sim_faults.disk_quota==0){ errno=ENOSPC; return -1; } n=can; grow=sim_faults.disk_quota; } sim_faults.disk_quota-=grow; }
    NodeP *p=curnode(); if(p->crash_after_bytes>=0){ if((i64)n>=p->crash_after_bytes){ n=p->crash_after_bytes; memcpy(i->data+off,buf,n); if(off+n>i->size) i->size=off+n; fault_fired("crash_mid_write"); rlog("crash after %zu bytes of a write to %s",n,i->path.c_str()); node_die(cur->node,137,true); } p->crash_after_bytes-=n; } }
  memcpy(i->data+off,buf,n); if(off+n>i->size) i->size=off+n; f->off=off+n; i->mtime=g_now/1000000000; return n; }
static ssize_t do_read(OpenFile *f,void *buf,size_t n){ Inode *i=f->in; if((f->flags&O_ACCMODE)==O_WRONLY){ errno=EBADF; return -1; } if(i->dir){ errno=EISDIR; return -1; } if(!cur->harness&&flip(sim_faults.disk_read_err,"disk_read_error")){ errno=EIO; return -1; } if(f->off>=i->size) return 0; if(n>i->size-f->off) n=i->size-f->off; if(n>1&&!cur->harness&&flip(sim_faults.disk_short,"disk_short_read")) n=1+choose(n-1); memcpy(buf,i->data+f->off,n); f->off+=n; return n; }
static void of_close(OpenFile *f){ if(--f->refs==0){ f->in->locks.erase(f); io_poke(); delete f; } }
static std::map<FILE*,OpenFile*> *cookies;
static ssize_t ck_read(void *c,char *b,size_t n){ ssize_t r=do_read((OpenFile*)c,b,n); return r; }
static ssize_t ck_write(void *c,const char *b,size_t n){ size_t done=0; while(done<n){ ssize_t r=do_write((OpenFile*)c,b+done,n-done); if(r<0){ return done?(ssize_t)done:0; } done+=r; } return done; }
static int ck_seek(void *c,off64_t *o,int wh){ OpenFile *f=(OpenFile*)c; i64 b=wh==SEEK_SET?0:wh==SEEK_CUR?(i64)f->off:(i64)f->in->size; if(b+*o<0){ errno=EINVAL; return -1; } f->off=b+*o; *o=f->off; return 0; }
static int ck_close(void *c){ of_close((OpenFile*)c); return 0; }
static int fill_stat(const Inode *i,struct stat *st){ memset(st,0,sizeof *st); st->st_ino=i->ino; st->st_dev=1; st->st_mode=i->dir?S_IFDIR|0755:S_IFREG|0644; st->st_size=i->dir?4096:i->size; st->st_nlink=1; st->st_blksize=4096; st->st_mtime=i->mtime; st->st_blocks=(i->size+511)/512; return 0; }
void node_close_all(NodeP *p){ if(!p->fds) return; for(int i=0;i<1024;i++){ FdEnt &e=p->fds->e[i]; if(!e.kind) continue; if(e.kind==1) sock_close(e.s); else if(e.kind==2) of_close(e.f); else if(e.kind==3) syscall(SYS_close,e.real); e.kind=0; }
  // unflushed stdio buffers are lost: the FILEs are simply never flushed; locks go away
  for(auto &kv:fsmap) for(auto it=kv.second->locks.begin();it!=kv.second->locks.end();) if(((OpenFile*)it->first)->node==p->idx) it=kv.second->locks.erase(it); else ++it; }
struct DirIt { std::vector<std::string> names; size_t pos=0; struct dirent de; };
static std::set<void*> *simdirs;
extern "C" {
static ssize_t file_read(OpenFile *f,void *buf,size_t n){ if(eintr()) return -1; return do_read(f,buf,n); }
static ssize_t file_write(OpenFile *f,const void *buf,size_t n){ return do_write(f,buf,n); }
int open(const char *path,int flags,...){ mode_t m=0; va_list ap; va_start(ap,flags); if(flags&O_CREAT) m=va_arg(ap,int); va_end(ap); if(!g_sim) return syscall(SYS_openat,AT_FDCWD,path,flags,m); std::string p=absp(path); if(passthru(p)){ if((flags&O_ACCMODE)!=O_RDONLY){ errno=EACCES; return -1; } int r=syscall(SYS_openat,AT_FDCWD,path,flags,m); if(r<0) return -1; FdEnt e; e.kind=3; e.real=r; return newfd(e); } sched_point(__builtin_return_address(0)); OpenFile *f=fopen_(p,flags); if(!f) return -1; FdEnt e; e.kind=2; e.f=f; return newfd(e); }
int open64(const char *path,int flags,...){ mode_t m=0; va_list ap; va_start(ap,flags); if(flags&O_CREAT) m=va_arg(ap,int); va_end(ap); return open(path,flags,m); }
int __open_2(const char *p,int f){ return open(p,f); } int __open64_2(const char *p,int f){ return open(p,f); }
int creat(const char *p,mode_t m){ return open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
int close(int fd){ if(!g_sim) return syscall(SYS_close,fd); sched_point(__builtin_return_address(0)); FdEnt *e=fd_(fd); if(!e){ errno=EBADF; rlog("close of bad fd %d: %s",fd,backtrace_str().c_str()); return -1; } int k=e->kind; Sock *s=e->s; OpenFile *f=e->f; e->kind=0; if(k==1) sock_close(s); else if(k==2) of_close(f); else syscall(SYS_close,e->real); return 0; }
int dup(int fd){ if(!g_sim) return syscall(SYS_dup,fd); FdEnt *e=fd_(fd); if(!e||e->kind!=2){ errno=EBADF; return -1; } e->f->refs++; return newfd(*e); }
int fcntl(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); if(!g_sim) return syscall(SYS_fcntl,fd,cmd,a); FdEnt *e=fd_(fd); if(!e){ errno=EBADF; return -1; }
  if(e->kind==1){ if(cmd==F_GETFL) return O_RDWR|(e->s->nonblock?O_NONBLOCK:0); if(cmd==F_SETFL){ e->s->nonblock=a&O_NONBLOCK; return 0; } return 0; }
  if(e->kind==2){ if(cmd==F_GETFL) return e->f->flags; if(cmd==F_SETLK||cmd==F_SETLKW){ struct flock *l=(struct flock*)a; Inode *in=e->f->in; OpenFile *of=e->f; if(l->l_type==F_UNLCK){ for(auto it=in->locks.begin();it!=in->locks.end();) if(((OpenFile*)it->first)->node==of->node) it=in->locks.erase(it); else ++it; io_poke(); return 0; }
      auto conf=[=]{ for(auto &kv:in->locks) if(((OpenFile*)kv.first)->node!=of->node&&(kv.second==F_WRLCK||l->l_type==F_WRLCK)) return true; return false; };
      if(conf()){ if(cmd==F_SETLK){ errno=EAGAIN; return -1; } if(!wait_io([=]{ return !conf(); },0,true)){ errno=EINTR; return -1; } } in->locks[of]=l->l_type; return 0; } return 0; }
  return 0; }
int fcntl64(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); return fcntl(fd,cmd,a); }
int flock(int fd,int op){ if(!g_sim) return syscall(SYS_flock,fd,op); return 0; }
off_t lseek(int fd,off_t o,int wh){ if(!g_sim) return syscall(SYS_lseek,fd,o,wh); FdEnt *e=fd_(fd); if(!e){ errno=EBADF; return -1; } if(e->kind==1){ errno=ESPIPE; return -1; } if(e->kind==3) return syscall(SYS_lseek,e->real,o,wh); off64_t x=o; if(ck_seek(e->f,&x,wh)<0) return -1; return x; }
off64_t lseek64(int fd,off64_t o,int wh){ return lseek(fd,o,wh); }
int ftruncate(int fd,off_t n){ if(!g_sim) return syscall(SYS_ftruncate,fd,n); sched_point(__builtin_return_address(0)); FdEnt *e=fd_(fd); if(!e||e->kind!=2){ errno=EBADF; return -1; } Inode *i=e->f->in; if((u64)n>FMAX){ errno=EFBIG; return -1; } if((u64)n<i->size) memset(i->data+n,0,i->size-n); else if(sim_faults.disk_quota>=0&&!cur->harness){ i64 g=n-i->size; if(g>sim_faults.disk_quota){ fault_fired("disk_full"); errno=ENOSPC; return -1; } sim_faults.disk_quota-=g; } i->size=n; return 0; }
int ftruncate64(int fd,off64_t n){ return ftruncate(fd,n); }
int fsync(int fd){ if(!g_sim) return syscall(SYS_fsync,fd); sched_point(__builtin_return_address(0)); if(fd!=900&&!fd_(fd)){ errno=EBADF; return -1; } if(!cur->harness&&flip(sim_faults.disk_sync_err,"disk_sync_error")){ errno=EIO; return -1; } return 0; } int fdatasync(int fd){ return fsync(fd); }
int fstat(int fd,struct stat *st){ if(!g_sim) return syscall(SYS_fstat,fd,st); FdEnt *e=fd_(fd); if(!e){ errno=EBADF; return -1; } if(e->kind==3) return syscall(SYS_fstat,e->real,st); if(e->kind==1){ memset(st,0,sizeof *st); st->st_mode=S_IFSOCK; return 0; } return fill_stat(e->f->in,st); }
int fstat64(int fd,struct stat64 *st){ return fstat(fd,(struct stat*)st); }
int __fxstat(int,int fd,struct stat *st){ return fstat(fd,st); } int __fxstat64(int,int fd,struct stat64 *st){ return fstat(fd,(struct stat*)st); }
int stat(const char *path,struct stat *st){ if(!g_sim) return syscall(SYS_newfstatat,AT_FDCWD,path,st,0); std::string p=absp(path); if(passthru(p)) return syscall(SYS_newfstatat,AT_FDCWD,path,st,0); Inode *i=look(p); if(!i){ errno=ENOENT; return -1; } return fill_stat(i,st); }
int stat64(const char *p,struct stat64 *st){ return stat(p,(struct stat*)st); } int lstat(const char *p,struct stat *st){ if(!g_sim) return syscall(SYS_newfstatat,AT_FDCWD,p,st,AT_SYMLINK_NOFOLLOW); return stat(p,st); } int lstat64(const char *p,struct stat64 *st){ return lstat(p,(struct stat*)st); }
int __xstat(int,const char *p,struct stat *st){ return stat(p,st); } int __lxstat(int,const char *p,struct stat *st){ return lstat(p,st); } int __xstat64(int,const char *p,struct stat64 *st){ return stat(p,(struct stat*)st); }
int access(const char *path,int m){ if(!g_sim) return syscall(SYS_access,path,m); std::string p=absp(path); if(passthru(p)) return syscall(SYS_access,path,m); if(!look(p)){ errno=ENOENT; return -1; } return 0; }
int mkdir(const char *path,mode_t m){ if(!g_sim) return syscall(SYS_mkdir,path,m); std::string p=absp(path); sched_point(__builtin_return_address(0)); if(passthru(p)){ errno=EACCES; return -1; } if(look(p)){ errno=EEXIST; return -1; } if(!parent_dir(p)){ errno=ENOENT; return -1; } mkino(p,true); return 0; }
int rmdir(const char *path){ if(!g_sim) return syscall(SYS_rmdir,path); std::string p=absp(path); if(passthru(p)){ errno=EACCES; return -1; } Inode *i=look(p); if(!i||!i->dir){ errno=ENOENT; return -1; } for(auto &kv:fsmap) if(kv.first.compare(0,p.size()+1,p+"/")==0){ errno=ENOTEMPTY; return -1; } fsmap.erase(p); return 0; }
int unlink(const char *path){ if(!g_sim) return syscall(SYS_unlink,path); std::string p=absp(path); sched_point(__builtin_return_address(0)); if(passthru(p)){ errno=EACCES; return -1; } Inode *i=look(p); if(!i){ errno=ENOENT; return -1; } if(i->dir){ errno=EISDIR; return -1; } rlog("unlink %s",p.c_str()); fsmap.erase(p); return 0; }
int remove(const char *p){ return unlink(p); }
int rename(const char *a,const char *b){ if(!g_sim) return syscall(SYS_rename,a,b); std::string p=absp(a),q=absp(b); sched_point(__builtin_return_address(0)); if(passthru(p)||passthru(q)){ errno=EACCES; return -1; } Inode *i=look(p); if(!i){ errno=ENOENT; return -1; } if(!parent_dir(q)){ errno=ENOENT; return -1; } if(!cur->harness&&flip(sim_faults.disk_write_err,"rename_error")){ errno=EIO; return -1; } rlog("rename %s %s",p.c_str(),q.c_str()); fsmap.erase(p); fsmap[q]=i; i->path=q; return 0; }
char *getcwd(char *b,size_t n){ if(!g_sim){ return REAL(getcwd)(b,n); } if(!b) return strdup(curnode()->cwd.c_str()); snprintf(b,n,"%s",curnode()->cwd.c_str()); return b; }
int chdir(const char *path){ if(!g_sim) return syscall(SYS_chdir,path); std::string p=absp(path); Inode *i=look(p); if(!i||!i->dir){ errno=ENOENT; return -1; } curnode()->cwd=p; return 0; }
DIR *opendir(const char *path){ if(!g_sim) return REAL(opendir)(path); std::string p=absp(path); if(passthru(p)){ errno=ENOENT; return nullptr; } Inode *i=look(p); if(!i||!i->dir){ errno=ENOENT; return nullptr; } DirIt *d=new DirIt; d->names={".",".."}; for(auto &kv:fsmap) if(kv.first.size()>p.size()&&kv.first.compare(0,p.size()+1,p+"/")==0&&kv.first.find('/',p.size()+1)==std::string::npos) d->names.push_back(kv.first.substr(p.size()+1)); return (DIR*)d; }
struct dirent *readdir(DIR *d_){ if(!g_sim) return REAL(readdir)(d_); DirIt *d=(DirIt*)d_; if(d->pos>=d->names.size()) return nullptr; memset(&d->de,0,sizeof d->de); snprintf(d->de.d_name,sizeof d->de.d_name,"%s",d->names[d->pos++].c_str()); return &d->de; }
struct dirent64 *readdir64(DIR *d){ return (struct dirent64*)readdir(d); }
int closedir(DIR *d){ if(!g_sim) return REAL(closedir)(d); delete (DirIt*)d; return 0; }
// stdio: real glibc FILEs over the simulated disk
static int mode_flags(const char *m){ int f; bool plus=strchr(m,'+'); switch(m[0]){ case 'r': f=plus?O_RDWR:O_RDONLY; break; case 'w': f=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC; break; case 'a': f=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND; break; default: return -1; } if(strchr(m,'x')) f|=O_EXCL; return f; }
static FILE *cookie_open(OpenFile *f,const char *mode){ cookie_io_functions_t io; io.read=ck_read; io.write=ck_write; io.seek=ck_seek; io.close=ck_close; bool g=g_sim; g_sim=false; FILE *fp=fopencookie(f,mode,io); g_sim=g; if(fp&&(f->flags&O_APPEND)) f->off=f->in->size; if(!cookies) cookies=new std::map<FILE*,OpenFile*>; (*cookies)[fp]=f; return fp; }
FILE *fopen(const char *path,const char *mode){ if(!g_sim) return REAL(fopen)(path,mode); std::string p=absp(path); int fl=mode_flags(mode); if(fl<0){ errno=EINVAL; return nullptr; } if(passthru(p)){ if(fl!=O_RDONLY){ errno=EACCES; return nullptr; } bool g=g_sim; g_sim=false; FILE *r=REAL(fopen)(path,mode); g_sim=g; return r; } sched_point(__builtin_return_address(0)); OpenFile *f=fopen_(p,fl); if(!f) return nullptr; return cookie_open(f,mode); }
FILE *fopen64(const char *p,const char *m){ return fopen(p,m); }
FILE *fdopen(int fd,const char *m){ if(!g_sim) return REAL(fdopen)(fd,m); FdEnt *e=fd_(fd); if(!e||e->kind!=2){ errno=EBADF; return nullptr; } e->f->refs++; return cookie_open(e->f,m); }
int fileno(FILE *fp){ if(!g_sim||!cookies||!cookies->count(fp)) return REAL(fileno)(fp); return 900; }
#define SP if(g_sim&&cur&&!cur->atomic) sched_point(__builtin_return_address(0))
int fclose(FILE *fp){ SP; if(cookies) cookies->erase(fp); return REAL(fclose)(fp); }
size_t fread(void *b,size_t s,size_t n,FILE *fp){ if(fp!=stdout&&fp!=stderr) SP; return REAL(fread)(b,s,n,fp); }
size_t fwrite(const void *b,size_t s,size_t n,FILE *fp){ if(fp!=stdout&&fp!=stderr) SP; return REAL(fwrite)(b,s,n,fp); }
int fflush(FILE *fp){ if(fp!=stdout&&fp!=stderr) SP; return REAL(fflush)(fp); }
// mmap of simulated files
void *mmap(void *a,size_t n,int prot,int fl,int fd,off_t off){ if(g_sim&&fd>=0&&!(fl&MAP_ANONYMOUS)){ FdEnt *e=fd_(fd); if(!e){ errno=EBADF; return MAP_FAILED; } if(e->kind==3) return (void*)syscall(SYS_mmap,a,n,prot,fl,e->real,off); if(e->kind!=2){ errno=ENODEV; return MAP_FAILED; } if(fl&MAP_PRIVATE){ char *b=(char*)syscall(SYS_mmap,0,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); memcpy(b,e->f->in->data+off,n); return b; } return e->f->in->data+off; } return (void*)syscall(SYS_mmap,a,n,prot,fl,fd,off); }
void *mmap64(void *a,size_t n,int prot,int fl,int fd,off64_t off){ return mmap(a,n,prot,fl,fd,off); }
int munmap(void *a,size_t n){ if((u64)a>=0x140000000000ull&&(u64)a<map_next) return 0; return syscall(SYS_munmap,a,n); }
int msync(void *a,size_t n,int f){ if((u64)a>=0x140000000000ull&&(u64)a<map_next) return 0; return syscall(SYS_msync,a,n,f); }
long sysconf(int n){ return REAL(sysconf)(n); }
// harness access
static std::string hp(const char *h,const char *p){ return p[0]=='/'?std::string(p):std::string("/sim/")+h+"/"+p; }
void sim_disk_put(const char *h,const char *path,const void *d,size_t n){ std::string p=hp(h,path); Inode *i=look(p); if(!i) i=mkino(p,false); memcpy(i->data,d,n); if(i->size>n) memset(i->data+n,0,i->size-n); i->size=n; }
i64 sim_disk_get(const char *h,const char *path,void *b,size_t max){ Inode *i=look(hp(h,path)); if(!i||i->dir) return -1; if(b) memcpy(b,i->data,std::min<u64>(max,i->size)); return i->size; }
int sim_disk_exists(const char *h,const char *path){ return look(hp(h,path))!=nullptr; }
void sim_disk_truncate(const char *h,const char *path,size_t n){ Inode *i=look(hp(h,path)); if(i&&n<i->size){ memset(i->data+n,0,i->size-n); i->size=n; fault_fired("truncate"); } }
void sim_disk_remove(const char *h,const char *path){ fsmap.erase(hp(h,path)); }
int sim_disk_count_open(int node){ int n=0; NodeP *p=nodes[node]; if(p->fds) for(auto &e:p->fds->e) if(e.kind==2) n++; if(cookies) for(auto &kv:*cookies) if(kv.second->node==node) n++; return n; }
void sim_disk_arm_crash(i64 bytes){ curnode()->crash_after_bytes=bytes; }
}
