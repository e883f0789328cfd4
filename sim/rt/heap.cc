// Deterministic allocator at a fixed address, with redzones, quarantine and a shadow map.
#include "rt.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <string.h>
#include <errno.h>
#include <stdio.h>
u8 *sim_shadow=(u8*)SHADOW;
u64 g_heap_live=0; int g_fill=0; bool g_heap_failing=false;
static bool inited=false;
static u64 bump=ARENA;
struct Hdr { u64 size; u32 magic; u32 cap16; };   // 16 bytes before every block; acts as redzone
static const u32 M_LIVE=0xA110CA7E, M_FREE=0xF4EEF4EE;
// quarantine FIFO: freed blocks are chained through their first 8 bytes
struct FreeNode { u64 next; };
static u64 q_head=0,q_tail=0,q_bytes=0; static const u64 Q_MAX=96ull<<20;
static u64 bins[64][4];     // exact-ish size classes: [log2][quarter]
static inline u64 rnd(u64 n){ // capacity for size n
  if(n<16) n=16;
  if(n<=256) return (n+15)&~15ull;
  u64 p=1ull<<(63-__builtin_clzll(n)); u64 q=p/4; return ((n+q-1)/q*q+15)&~15ull; }
static inline u64 *bin(u64 cap){ int l=63-__builtin_clzll(cap); int q=(cap>>(l-2))&3; return &bins[l][q]; }
void heap_init(){ if(inited) return; inited=true;
  void *p=mmap((void*)ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  void *s=mmap((void*)SHADOW,ARENA_SZ/16,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  if(p==MAP_FAILED||s==MAP_FAILED){ const char m[]="sim: cannot map arena\n"; syscall(SYS_write,2,m,sizeof m-1); _exit(97); }
}
// Each run starts from the same heap state, whatever the runner allocated before it: a fixed address above the runner's own blocks, nothing to reuse.
void heap_child(){ u64 base=ARENA+(4ull<<30); if(bump<base) bump=base; q_head=q_tail=q_bytes=0; memset(bins,0,sizeof bins); g_heap_live=0; }
static inline void sh(u64 a,u64 n,u8 v){ memset((void*)(SHADOW+(a-ARENA)/16),v,(n+15)/16); }
// shadow: 0 unallocated/redzone, 1 live, 2 freed
static void *alloc(u64 n,u64 align,bool zero){
  heap_init();
  if(n>(1ull<<31)){ errno=ENOMEM; return 0; }
  if(g_sim && cur && g_heap_failing==false && sim_faults.alloc_fail>0 && !cur->harness && !cur->in_handler && flip(sim_faults.alloc_fail,"alloc_fail")){ errno=ENOMEM; return 0; }
  u64 cap=rnd(n+1); u64 a=0; bool fresh=false;
  if(align<=16){
    u64 *b=bin(cap); u64 prev=0,x=*b; int guard=0;
    while(x && ((Hdr*)(x-16))->cap16!=cap/16 && ++guard<8){ prev=x; x=((FreeNode*)x)->next; }
    if(x && ((Hdr*)(x-16))->cap16==cap/16){ if(prev) ((FreeNode*)prev)->next=((FreeNode*)x)->next; else *b=((FreeNode*)x)->next; a=x; }
  }
  if(!a){ a=bump+16; if(align>16) a=(a+align-1)/align*align; bump=a+cap+16; fresh=true;
    if(bump>ARENA+ARENA_SZ){ const char m[]="sim: arena exhausted\n"; syscall(SYS_write,2,m,sizeof m-1); _exit(96); } }
  Hdr *h=(Hdr*)(a-16); h->size=n; h->magic=M_LIVE; h->cap16=cap/16;
  sh(a,n?n:1,1); if(((n+15)&~15ull)<cap) sh(a+((n?n:1)+15)/16*16,cap-((n?n:1)+15)/16*16,0);
  if(zero){ if(!fresh) memset((void*)a,0,n); }
  else if(g_fill>=0){ if(!(fresh&&g_fill==0)) memset((void*)a,g_fill,n); }
  g_heap_live+=n; return (void*)a; }
static bool in_arena(const void *p){ return (u64)p>=ARENA && (u64)p<ARENA+ARENA_SZ; }
static void dealloc(void *p){
  if(!p) return; if(!in_arena(p)) return;  // allocated by ld.so's minimal malloc
  Hdr *h=(Hdr*)((u64)p-16);
  if(h->magic!=M_LIVE){ if(g_sim) violation("double-free","free() of a block that is %s (%s)",h->magic==M_FREE?"already freed":"not a heap block",backtrace_str().c_str()); return; }
  u64 cap=(u64)h->cap16*16; h->magic=M_FREE; g_heap_live-=h->size;
  sh((u64)p,cap,2); memset(p,0xDD,h->size<4096?h->size:4096);
  ((FreeNode*)p)->next=0; if(q_tail) ((FreeNode*)q_tail)->next=(u64)p; else q_head=(u64)p; q_tail=(u64)p; q_bytes+=cap;
  while(q_bytes>Q_MAX){ u64 x=q_head; q_head=((FreeNode*)x)->next; if(!q_head) q_tail=0; u64 c=(u64)((Hdr*)(x-16))->cap16*16; q_bytes-=c;
    u64 *b=bin(c); ((FreeNode*)x)->next=*b; *b=x; } }
extern "C" {
void *malloc(size_t n){ return alloc(n,16,false); }
void free(void *p){ int e=errno; dealloc(p); errno=e; }
void *calloc(size_t a,size_t b){ u64 n; if(__builtin_mul_overflow(a,b,&n)){ errno=ENOMEM; return 0; } return alloc(n,16,true); }
void *realloc(void *p,size_t n){ if(!p) return malloc(n);
  if(!n){ free(p); return 0; }
  u64 old; if(in_arena(p)){ Hdr *h=(Hdr*)((u64)p-16); if(h->magic!=M_LIVE&&g_sim) violation("use-after-free","realloc of a freed block"); old=h->size; } else old=n;
  void *q=malloc(n); if(!q) return 0; memcpy(q,p,old<n?old:n); free(p); return q; }
void *memalign(size_t al,size_t n){ return alloc(n,al,false); }
void *aligned_alloc(size_t al,size_t n){ return alloc(n,al,false); }
int posix_memalign(void **pp,size_t al,size_t n){ void *p=alloc(n,al,false); if(!p) return ENOMEM; *pp=p; return 0; }
void *valloc(size_t n){ return alloc(n,4096,false); }
size_t malloc_usable_size(void *p){ if(!p||!in_arena(p)) return 0; return ((Hdr*)((u64)p-16))->size; }
u64 sim_heap_live(){ return g_heap_live; }
}
void heap_report(const void *p,std::string &out){ char b[200]; u64 a=(u64)p&~15ull; if(!in_arena(p)) return;
  for(u64 x=a;x>ARENA&&x>a-(1<<20);x-=16){ Hdr *h=(Hdr*)(x-16); if((h->magic==M_LIVE||h->magic==M_FREE)&&(u64)h->cap16*16+x>=(u64)p){
    snprintf(b,sizeof b,"offset %lld of a %s block of %llu bytes",(long long)((u64)p-x),h->magic==M_LIVE?"live":"freed",(unsigned long long)h->size); out+=b; return; } } }
