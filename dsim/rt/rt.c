// dsim runtime: deterministic scheduler, happens-before race detector with C11 weak-memory reads, checked arena
// allocator, fault injection, simulated futex/clock/randomness.  It implements the __tsan_* symbols that rustc emits
// under -Zsanitizer=thread, so the code under test needs no changes.  It is itself not instrumented.
#define _GNU_SOURCE
#include "rt.h"
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>

#define likely(x) __builtin_expect(!!(x),1)
#define unlikely(x) __builtin_expect(!!(x),0)

#define ARENA_BASE 0x100000000000ull
#define ARENA_SIZE (64ull<<20)
#define SHADOW_BASE 0x110000000000ull
#define GSHADOW_BASE 0x118000000000ull
#define STACK_BASE 0x180000000000ull
#define STACK_STRIDE (2ull<<20)
#define STACK_SIZE (1ull<<20)

void *__real_memcpy(void*,const void*,size_t);
void *__real_memmove(void*,const void*,size_t);
void *__real_memset(void*,int,size_t);
int __real_memcmp(const void*,const void*,size_t);
int __real_bcmp(const void*,const void*,size_t);

struct cell { u8 st, pad; u16 aidx; u32 w; u32 r[MAXT]; };
_Static_assert(sizeof(struct cell)==32,"cell");

enum { T_UNUSED, T_RUN, T_FUTEX, T_KEY, T_JOIN, T_DONE };
struct thr {
  int go;                 // baton word (real futex)
  int state, id;
  u32 vc[MAXT], acqp[MAXT], relf[MAXT];
  int has_relf, nostale;
  u64 wkey, deadline; int wres; u32 wmask;
  int ignore;             // >0: accesses not checked, no preemption, no faults
  int faults;             // allocation faults allowed
  int noalloc;            // >0: allocations belong to nobody (not leak checked)
  int prio;
  int dtor_rounds, joined;
  void (*fn)(void*); void *arg;
  pthread_t pt;
  char op[160];
};

static struct result *R;
static struct thr T[MAXT];
static __thread struct thr *self;
static int active;           // a run is in progress in this process
static int nthr, cur, ndone, alldone;
static int multi;            // more than one thread was ever spawned
static u64 ticks, tick_limit=400000000ull;
static u64 nacc;
static u64 simclock;
static pthread_key_t endkey;
static int leak_ok;

static inline long rsys(long n,long a,long b,long c,long d,long e,long f){
  long r; register long r10 __asm__("r10")=d; register long r8 __asm__("r8")=e; register long r9 __asm__("r9")=f;
  __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return r;
}

// ---------------------------------------------------------------- streams
struct rng { u64 s; };
static u64 rnd(struct rng *g){ u64 z=(g->s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static struct rng gW,gS,gF,gM;
static u32 sidx,fidx,spos,fpos; // decision counters and replay cursors
static u64 h; // trace hash
static inline void mix(u64 x){ h=(h^x)*0x100000001b3ull; h^=h>>29; }

static struct { int strat; u32 p; u32 cp[4]; int ncp; int victim; u32 va,vb; u32 q; u32 alloc_mode, alloc_n, alloc_p; u32 stale_p; u32 wake_p; u32 gen_p; u32 fine; } cfg;
static u32 alloc_cnt;
static u64 soft_limit=60000, hard_limit=400000;

// ---------------------------------------------------------------- reporting
static void dolog(const char*fmt,...) __attribute__((format(printf,1,2)));
static void dolog(const char*fmt,...){
  if(!R||!R->log_on) return;
  u32 left=LOGSZ-1-R->loglen; if(left<400) return;
  va_list ap; va_start(ap,fmt); int n=vsnprintf(R->log+R->loglen,left,fmt,ap); va_end(ap);
  if(n>0) R->loglen += (u32)n<left?(u32)n:left-1;
}
static void finish_stats(void){
  R->hash=h; R->ticks=ticks; R->simtime=simclock; R->nthreads=nthr; R->accesses=nacc; R->strat=cfg.strat;
  for(int i=0;i<1;i++){ struct thr*t=&T[cur]; snprintf(R->op,sizeof R->op,"T%d: %s",t->id,t->op); }
}
void sim_violation(const char*cls,const char*msg){
  if(!active){ fprintf(stderr,"violation outside a run: %s: %s\n",cls,msg); abort(); }
  snprintf(R->cls,sizeof R->cls,"%s",cls);
  snprintf(R->msg,sizeof R->msg,"%s",msg);
  R->tid=self?self->id:99;
  finish_stats();
  dolog("!! VIOLATION %s: %s\n",cls,msg);
  __atomic_store_n(&R->status,2,__ATOMIC_SEQ_CST);
  rsys(SYS_exit_group,77,0,0,0,0,0);
  for(;;);
}
static void viol(const char*cls,const char*fmt,...) __attribute__((noreturn,format(printf,2,3)));
static void viol(const char*cls,const char*fmt,...){
  char b[900]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  sim_violation(cls,b); __builtin_unreachable();
}
void sim_harness_error(const char*msg){
  snprintf(R->msg,sizeof R->msg,"%s (seed %llu, T%d: %s)",msg,(unsigned long long)R->seed,T[cur].id,T[cur].op); R->status=3; finish_stats(); R->status=3; rsys(SYS_exit_group,78,0,0,0,0,0);
}
// a run that outgrew the simulator's tables: no verdict on it, the others go on
static void cut_short(const char*msg){
  snprintf(R->msg,sizeof R->msg,"%s (seed %llu, T%d: %s)",msg,(unsigned long long)R->seed,T[cur].id,T[cur].op); R->status=4; finish_stats(); R->status=4; rsys(SYS_exit_group,79,0,0,0,0,0);
}

// ---------------------------------------------------------------- choices
u32 sim_w(u32 n){
  if(n<=1) return 0;
  u32 i=R->nW, v;
  if(R->replay){ static u32 pos; v = pos<i ? R->W[pos]%n : 0; pos++; return v; }
  v=(u32)(rnd(&gW)%n);
  if(i<MAXW) R->W[R->nW++]=v; else { R->overflow|=1; }
  return v;
}
// workload position (for span bookkeeping in the minimiser)
static void recS(u32 idx,u32 val){ if(R->nS<MAXS){R->S[R->nS].idx=idx;R->S[R->nS].val=val;R->nS++;} else R->overflow|=2; }
static void recF(u32 idx,u32 val){ if(R->nF<MAXF){R->F[R->nF].idx=idx;R->F[R->nF].val=val;R->nF++;} else R->overflow|=4; }
static int repF(u32 idx,u32*val){
  while(fpos<R->nF && R->F[fpos].idx<idx) fpos++;
  if(fpos<R->nF && R->F[fpos].idx==idx){ *val=R->F[fpos].val; return 1; }
  return 0;
}
// kind: fault kind; n: number of non-zero alternatives; p: inject with probability 1/p (0: never on its own)
static u32 fault(u32 kind,u32 n,u32 p){
  if(!n) return 0;
  u32 i=fidx++, v=0;
  R->fq[kind]++;
  if(R->replay){ if(repF(i,&v)&&v>n) v=n?1+(v-1)%n:0; }
  else if(p && rnd(&gF)%p==0){ v=1+(u32)(rnd(&gF)%n); recF(i,v); }
  if(v){ R->fi[kind]++; mix(0xf00d00+kind*64+v); dolog("   T%d fault kind %u value %u (query %u)\n",cur,kind,v,i); }
  return v;
}
// General fault point for the harness: uses the run's fault density.
u32 sim_fault(u32 kind,u32 n,u32 boost){
  if(!active||!self||self->ignore) return 0;
  u32 p=cfg.gen_p; if(p&&boost){ p/=boost; if(!p)p=1; }
  return fault(kind,n,p);
}
// harness-defined choice that must not be biased towards 0 (e.g. sizes of short reads): recorded in the F stream
u32 sim_pick(u32 kind,u32 n){
  if(n<=1||!active) return 0;
  u32 i=fidx++, v=0; R->fq[kind]++;
  if(R->replay){ if(repF(i,&v)) v%=n; }
  else { v=(u32)(rnd(&gF)%n); if(v) recF(i,v); }
  if(v) R->fi[kind]++;
  mix(0xabc0000+v); return v;
}

// ---------------------------------------------------------------- scheduler
static void wait_go(struct thr*t){
  while(!__atomic_load_n(&t->go,__ATOMIC_ACQUIRE)) rsys(SYS_futex,(long)&t->go,FUTEX_WAIT_PRIVATE,0,0,0,0);
  __atomic_store_n(&t->go,0,__ATOMIC_RELAXED);
}
static void give(struct thr*t){
  cur=t->id;
  __atomic_store_n(&t->go,1,__ATOMIC_RELEASE); rsys(SYS_futex,(long)&t->go,FUTEX_WAKE_PRIVATE,1,0,0,0);
}
static int runnable(int *out){ int n=0; for(int i=0;i<nthr;i++) if(T[i].state==T_RUN) out[n++]=i; return n; }
static int has(int*a,int n,int x){ for(int i=0;i<n;i++) if(a[i]==x) return 1; return 0; }

static int strategy(int*rs,int n,int yielding){
  int c=has(rs,n,cur)?cur:-1;
  switch(cfg.strat){
  case 0: // random walk
    if(c<0||yielding||rnd(&gS)%cfg.p==0) return rs[rnd(&gS)%n];
    return c;
  case 1: { // PCT
    for(int i=0;i<cfg.ncp;i++) if(cfg.cp[i]==sidx){ static int low=-1; T[cur].prio=low--; }
    if(yielding){ static int ylow=-1000; T[cur].prio=ylow--; }
    int b=rs[0]; for(int i=1;i<n;i++) if(T[rs[i]].prio>T[b].prio) b=rs[i];
    return b; }
  case 2: { // quantum round robin
    if(c>=0&&!yielding&&sidx%cfg.q) return c;
    for(int k=1;k<=nthr;k++) if(has(rs,n,(cur+k)%nthr)) return (cur+k)%nthr;
    return rs[0]; }
  case 3: { // one stalled thread, others random
    int m=0,tmp[MAXT]; for(int i=0;i<n;i++) if(!(rs[i]==cfg.victim&&sidx>=cfg.va&&sidx<cfg.vb)) tmp[m++]=rs[i];
    if(!m) return rs[0];
    if(has(tmp,m,cur)&&!yielding&&rnd(&gS)%cfg.p) return cur;
    return tmp[rnd(&gS)%m]; }
  default: // run to completion (sequential)
    if(c>=0&&!yielding) return c;
    return rs[rnd(&gS)%n];
  }
}
static int pick(int yielding){
  int rs[MAXT]; int n=runnable(rs);
  if(n==0) return -1;
  if(n==1) return rs[0];
  int def=has(rs,n,cur)?cur:rs[0];
  if(yielding&&def==cur){ for(int k=1;k<=nthr;k++) if(has(rs,n,(cur+k)%nthr)){ def=(cur+k)%nthr; break; } }
  u32 i=sidx; int v;
  if(R->steps>soft_limit){ // faults and adversarial scheduling have stopped: fair round robin
    v=def; for(int k=1;k<=nthr;k++) if(has(rs,n,(cur+k)%nthr)){ v=(cur+k)%nthr; break; }
  } else if(R->replay){
    while(spos<R->nS&&R->S[spos].idx<i) spos++;
    v=def; if(spos<R->nS&&R->S[spos].idx==i&&has(rs,n,(int)R->S[spos].val)) v=(int)R->S[spos].val;
  } else {
    v=strategy(rs,n,yielding);
    if(v!=def) recS(i,(u32)v);
  }
  sidx++;
  return v;
}
static void switch_to(int n,const char*why){
  struct thr*me=self;
  if(n==me->id) return;
  R->switches++;
  dolog("-- T%d -> T%d (%s)\n",me->id,n,why);
  give(&T[n]);
  wait_go(me);
}
static void timers(void){
  for(int i=0;i<nthr;i++) if((T[i].state==T_FUTEX||T[i].state==T_KEY)&&T[i].deadline&&T[i].deadline<=simclock){ T[i].state=T_RUN; T[i].wres=ETIMEDOUT; T[i].deadline=0; }
}
static void preempt(const char*why,u64 tag,int yielding){
  struct thr*t=self;
  R->steps++; simclock+=1000;
  mix(((u64)t->id<<56)^tag);
  if(unlikely(R->steps>hard_limit)) viol("liveness","no termination within %llu scheduling steps although the scheduler became fair after %llu; T%d in %s",(unsigned long long)hard_limit,(unsigned long long)soft_limit,t->id,t->op);
  if(!multi) return;
  timers();
  int n=pick(yielding);
  if(n>=0&&n!=t->id) switch_to(n,why);
}
// block current thread (state already set); returns when scheduled again
static void block(const char*why){
  struct thr*t=self;
  for(;;){
    timers();
    int n=pick(0);
    if(n>=0){ if(n!=t->id) switch_to(n,why); return; }
    // nobody can run: advance the clock to the earliest deadline
    u64 d=0; for(int i=0;i<nthr;i++) if((T[i].state==T_FUTEX||T[i].state==T_KEY)&&T[i].deadline&&(!d||T[i].deadline<d)) d=T[i].deadline;
    if(d){ simclock=d; continue; }
    char b[600]; int o=0; for(int i=0;i<nthr;i++) o+=snprintf(b+o,sizeof b-o," T%d:%s[%s]",i,T[i].state==T_DONE?"done":T[i].state==T_JOIN?"join":T[i].state==T_KEY?"waiting":"futex",T[i].op);
    viol("deadlock","no thread can run:%s",b);
  }
}
#define LIVE() (likely(active)&&self&&!self->ignore)

void sim_point(u32 tag){ if(LIVE()) preempt("step",0x5000+tag,0); }
void sim_yield(void){ if(LIVE()) preempt("yield",0x6000,1); }

static inline void vjoin(u32*a,const u32*b){ for(int i=0;i<MAXT;i++) if(b[i]>a[i]) a[i]=b[i]; }
static inline void vcpy(u32*a,const u32*b){ for(int i=0;i<MAXT;i++) a[i]=b[i]; }

void sim_clk_release(u32*out){ if(!active||!self) return; vcpy(out,self->vc); self->vc[self->id]++; }
void sim_clk_acquire(const u32*in){ if(!active||!self) return; vjoin(self->vc,in); }

static void thread_end(void*p){
  struct thr*t=p;
  if(t->dtor_rounds++<2){ pthread_setspecific(endkey,t); return; }
  t->state=T_DONE; ndone++;
  mix(0xdead00+t->id);
  dolog("-- T%d ends\n",t->id);
  for(int i=0;i<nthr;i++) if(T[i].state==T_JOIN&&T[i].wkey==(u64)t->id) T[i].state=T_RUN;
  if(ndone==nthr){ self=0; __atomic_store_n(&alldone,1,__ATOMIC_SEQ_CST); rsys(SYS_futex,(long)&alldone,FUTEX_WAKE_PRIVATE,1,0,0,0); return; }
  for(;;){
    timers();
    int n=pick(0);
    if(n>=0){ self=0; give(&T[n]); return; }
    u64 d=0; for(int i=0;i<nthr;i++) if((T[i].state==T_FUTEX||T[i].state==T_KEY)&&T[i].deadline&&(!d||T[i].deadline<d)) d=T[i].deadline;
    if(d){ simclock=d; continue; }
    char b[600]; int o=0; for(int i=0;i<nthr;i++) o+=snprintf(b+o,sizeof b-o," T%d:%s[%s]",i,T[i].state==T_DONE?"done":T[i].state==T_JOIN?"join":T[i].state==T_KEY?"waiting":"futex",T[i].op);
    viol("deadlock","no thread can run:%s",b);
  }
}
static void *thread_main(void*p){
  struct thr*t=p;
  self=t;
  pthread_setspecific(endkey,t);
  wait_go(t);
  t->fn(t->arg);
  snprintf(t->op,sizeof t->op,"exit");
  return 0;
}
int sim_spawn(void(*fn)(void*),void*arg){
  int id=nthr;
  if(nthr<MAXT) nthr++;
  else {
    // the place of a thread that has ended and been joined; its clock goes on
    for(id=0;id<MAXT&&!(T[id].state==T_DONE&&T[id].joined);id++);
    if(id==MAXT) cut_short("too many threads");
    struct thr*o=&T[id]; u32 own=o->vc[id];
    pthread_join(o->pt,0);
    memset(o,0,sizeof *o); o->vc[id]=own; ndone--;
  }
  struct thr*t=&T[id]; u32 own=t->vc[id];
  t->id=id; t->fn=fn; t->arg=arg; t->state=T_RUN;
  t->prio=R->replay?0:(int)(rnd(&gS)%1000)+1;
  if(self){ vcpy(t->vc,self->vc); self->vc[self->id]++; multi=1; t->faults=0; }
  t->vc[id]=(t->vc[id]>own?t->vc[id]:own)+1;
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at,(void*)(STACK_BASE+id*STACK_STRIDE),STACK_SIZE);
  if(pthread_create(&t->pt,&at,thread_main,t)) sim_harness_error("pthread_create");
  pthread_attr_destroy(&at);
  if(self) dolog("-- T%d spawns T%d\n",self->id,id);
  return id;
}
void sim_join(int id){
  struct thr*t=self;
  while(T[id].state!=T_DONE){ t->state=T_JOIN; t->wkey=(u64)id; block("join"); }
  vjoin(t->vc,T[id].vc); T[id].joined=1;
}
int sim_room(void){ if(nthr<MAXT) return 1; for(int i=0;i<MAXT;i++) if(T[i].state==T_DONE&&T[i].joined) return 1; return 0; }
// generic blocking on a key (used by the harness's mailboxes)
void sim_wait(u64 key){ struct thr*t=self; t->state=T_KEY; t->wkey=key; t->deadline=0; block("wait"); }
void sim_wake(u64 key){ for(int i=0;i<nthr;i++) if(T[i].state==T_KEY&&T[i].wkey==key) T[i].state=T_RUN; }

// ---------------------------------------------------------------- memory regions
extern char __data_start[] __attribute__((weak)), _end[] __attribute__((weak));
static inline struct cell* cell_of(u64 a,int*arena){
  if(likely(a-ARENA_BASE<ARENA_SIZE)){ *arena=1; return (struct cell*)SHADOW_BASE+(a-ARENA_BASE); }
  if(a>=(u64)__data_start&&a<(u64)_end){ *arena=0; return (struct cell*)GSHADOW_BASE+(a-(u64)__data_start); }
  return 0;
}
static u64 norm(u64 a){ if(a-ARENA_BASE<ARENA_SIZE) return a-ARENA_BASE; if(a>=(u64)__data_start&&a<(u64)_end) return 0x8000000000ull|(a-(u64)__data_start); return 0; }

// ---------------------------------------------------------------- allocator
struct blk { u64 addr; u32 size, align; u8 live, noleak; u8 tid; u32 seq; char op[40]; };
#define MAXB (1u<<19)
static struct blk *B; static u32 nblk;
static u64 bump;
static u32 live_blocks; static u64 live_bytes, peak_bytes;

static struct blk* find_blk(u64 a){ // binary search by address
  u32 lo=0,hi=nblk; while(lo<hi){ u32 m=(lo+hi)/2; if(B[m].addr<=a) lo=m+1; else hi=m; }
  return lo?&B[lo-1]:0;
}
static void desc(u64 a,char*out,size_t n){
  struct blk*b=find_blk(a);
  if(b) snprintf(out,n,"block #%u (size %u, align %u, %s, allocated by T%d in '%s') offset %lld",b->seq,b->size,b->align,b->live?"live":"released",b->tid,b->op,(long long)(a-b->addr));
  else snprintf(out,n,"no block");
}
static void acc(u64 a,size_t n,int wr);
static void *arena_alloc(size_t size,size_t align){
  struct thr*t=self;
  if(align<1) align=1;
  u64 al=align<8?8:align;
  u64 p=ARENA_BASE+bump+32;
  p=(p+al-1)&~(al-1);
  if(al>=8 && al<=4096 && !(p&al)) p+=al; // aligned to exactly `align`, not more
  if(align<8){ // expose code that assumes more alignment than it asked for
    p+=align; 
  }
  u64 end=p+size;
  if(size>ARENA_SIZE||end+64>ARENA_BASE+ARENA_SIZE){ return 0; }
  if(nblk>=MAXB) cut_short("too many blocks");
  bump=((end+32+15)&~15ull)-ARENA_BASE;
  struct blk*b=&B[nblk]; b->addr=p; b->size=(u32)size; b->align=(u32)align; b->live=1; b->noleak=t->noalloc>0; b->tid=(u8)t->id; b->seq=nblk;
  snprintf(b->op,sizeof b->op,"%.39s",t->op);
  nblk++; live_blocks++; live_bytes+=size; if(live_bytes>peak_bytes) peak_bytes=live_bytes;
  struct cell*c=(struct cell*)SHADOW_BASE+(p-ARENA_BASE);
  for(size_t i=0;i<size;i++) c[i].st=1;
  if(multi){ u32 w=((u32)t->id<<28)|t->vc[t->id]; for(size_t i=0;i<size;i++) c[i].w=w; }
  u8 g=(u8)(0xa0+(R->seed%31)); // garbage in fresh memory
  __real_memset((void*)p,g+(nblk%13),size);
  return (void*)p;
}
static int in_arena(void*p){ return (u64)p-ARENA_BASE<ARENA_SIZE; }
static void arena_free(void*p,size_t size,size_t align){
  struct thr*t=self; char d[300];
  struct blk*b=find_blk((u64)p);
  if(!b||b->addr!=(u64)p){ desc((u64)p,d,sizeof d); viol("bad-free","release of a pointer that is not the start of a block: %s",d); }
  if(!b->live){ desc((u64)p,d,sizeof d); viol("double-free","second release of %s",d); }
  if(b->size!=size||b->align!=align){ desc((u64)p,d,sizeof d); viol("bad-layout","release with size %zu align %zu of %s",size,align,d); }
  int ig=t->ignore; 
  if(!ig) acc((u64)p,size,2);
  b->live=0; live_blocks--; live_bytes-=size;
  struct cell*c=(struct cell*)SHADOW_BASE+((u64)p-ARENA_BASE);
  for(size_t i=0;i<size;i++) c[i].st=2;
  __real_memset(p,0xdd,size);
}
static int alloc_fault(size_t size){
  struct thr*t=self;
  if(t->ignore||!t->faults) return 0;
  u32 p=0,force=0; alloc_cnt++;
  if(cfg.alloc_mode==1) force=alloc_cnt==cfg.alloc_n;
  else if(cfg.alloc_mode==2) p=cfg.alloc_p;
  else if(cfg.alloc_mode==3) force=alloc_cnt>=cfg.alloc_n&&alloc_cnt<cfg.alloc_n+cfg.alloc_p;
  return fault(0,1,force?1:p)!=0;
}
void *sim_alloc(size_t size,size_t align){
  if(!active||!self) return 0;
  R->allocs++;
  if(!self->ignore){ if(alloc_fault(size)) return 0; preempt("alloc",0x7000,0); }
  return arena_alloc(size,align);
}
int sim_dealloc(void*p,size_t size,size_t align){
  if(!in_arena(p)) return 0;
  if(!active||!self) return 1;
  if(!self->ignore) preempt("release",0x7100,0);
  arena_free(p,size,align);
  return 1;
}
void *sim_realloc(void*p,size_t size,size_t align,size_t nsize){
  char d[300];
  struct blk*b=find_blk((u64)p);
  if(!b||b->addr!=(u64)p||!b->live||b->size!=size||b->align!=align){ desc((u64)p,d,sizeof d); viol("bad-layout","realloc with size %zu align %zu of %s",size,align,d); }
  R->allocs++;
  if(!self->ignore){ if(alloc_fault(nsize)) return 0; preempt("realloc",0x7200,0); }
  void*q=arena_alloc(nsize,align); if(!q) return 0;
  if(!self->ignore) acc((u64)p,size,1);
  __real_memcpy(q,p,size<nsize?size:nsize);
  arena_free(p,size,align);
  return q;
}
int sim_in_arena(void*p){ return in_arena(p); }
// number of the block holding p (0: none)
u32 sim_block(void*p){ if(!in_arena(p)) return 0; struct blk*b=find_blk((u64)p); if(!b||(u64)p>=b->addr+b->size) return 0; return b->seq+1; }
int sim_live(void){ return active&&self!=0; }
u32 sim_blocks(void){ return nblk; }
u32 sim_live_blocks(void){ return live_blocks; }
u64 sim_live_bytes(void){ return live_bytes; }

// ---------------------------------------------------------------- atomics: histories and clocks
#define HN 6
struct st { u64 val; u32 rel[MAXT]; u32 clk; u32 mo; u8 tid, hasrel, init; };
struct aloc { u64 addr; u32 size; u32 ar[MAXT], aw[MAXT]; u32 seen[MAXT]; u32 rseen; u32 n, mo; struct st hs[HN]; u32 region; };
#define MAXA 16384
static struct aloc *A; static u32 na=1;
static u32 *ahash; // size MAXA*4

static struct aloc* aloc_get(u64 a,u32 size,int create){
  u32 i=(u32)((a>>0)*0x9E3779B97F4A7C15ull>>48)&(MAXA*4-1);
  for(;;i=(i+1)&(MAXA*4-1)){
    u32 x=ahash[i];
    if(!x){ if(!create) return 0; if(na>=MAXA) cut_short("too many atomics"); ahash[i]=na; struct aloc*l=&A[na]; l->addr=a; l->size=size; 
      int ar; struct cell*c=cell_of(a,&ar); l->region=c!=0; if(c) for(u32 k=0;k<size;k++) c[k].aidx=(u16)na; na++; return l; }
    if(A[x].addr==a) return &A[x];
  }
}
static u64 rdval(u64 a,u32 size){ switch(size){case 1:return *(volatile u8*)a;case 2:return *(volatile u16*)a;case 4:return *(volatile u32*)a;default:return *(volatile u64*)a;} }
static void wrval(u64 a,u32 size,u64 v){ switch(size){case 1:*(volatile u8*)a=(u8)v;break;case 2:*(volatile u16*)a=(u16)v;break;case 4:*(volatile u32*)a=(u32)v;break;default:*(volatile u64*)a=v;} }

static void race(u64 a,const char*what,int u,const char*other) __attribute__((noreturn));
static void race(u64 a,const char*what,int u,const char*other){
  char d[300]; desc(a,d,sizeof d);
  viol("data-race","%s by T%d in '%s' is not ordered with %s by T%d (last op '%s'); %s",what,self->id,self->op,other,u,T[u].op,a-ARENA_BASE<ARENA_SIZE?d:"static");
}
static void bad_access(u64 a,size_t n,int wr,int st) __attribute__((noreturn));
static void bad_access(u64 a,size_t n,int wr,int st){
  char d[300]; desc(a,d,sizeof d);
  viol(st==2?"use-after-free":"out-of-bounds","%s of %zu bytes by T%d in '%s': %s",wr==0?"read":wr==1?"write":"release",n,self->id,self->op,d);
}
// wr: 0 read, 1 write, 2 release (counts as a write for ordering)
static void acc(u64 a,size_t n,int wr){
  int arena; struct cell*c=cell_of(a,&arena);
  if(!c||!n) return;
  struct thr*t=self; int me=t->id;
  if(arena){
    if(unlikely(a+n>ARENA_BASE+ARENA_SIZE)) bad_access(a,n,wr,0);
    for(size_t i=0;i<n;i++) if(unlikely(c[i].st!=1)) bad_access(a+i,n,wr,c[i].st);
  }
  if(!multi) return;
  u32 clk=t->vc[me], mine=((u32)me<<28)|clk;
  for(size_t i=0;i<n;i++){
    struct cell*x=c+i;
    if(wr==0){
      if(x->w==mine||(x->r[me]==clk&&!x->aidx)){ x->r[me]=clk; continue; }
      if(x->w){ u32 wt=x->w>>28,wc=x->w&0xfffffff; if(unlikely(wc>t->vc[wt])) race(a+i,"read",wt,"a write"); }
      if(x->aidx){ struct aloc*l=&A[x->aidx]; for(int u=0;u<MAXT;u++) if(u!=me&&l->aw[u]>t->vc[u]) race(a+i,"plain read",u,"an atomic write"); }
      x->r[me]=clk;
    } else {
      if(x->w){ u32 wt=x->w>>28,wc=x->w&0xfffffff; if(unlikely(wc>t->vc[wt])) race(a+i,wr==2?"release":"write",wt,"a write"); }
      for(int u=0;u<MAXT;u++) if(unlikely(x->r[u]>t->vc[u])) race(a+i,wr==2?"release":"write",u,"a read");
      if(x->aidx){ struct aloc*l=&A[x->aidx]; for(int u=0;u<MAXT;u++) if(u!=me&&(l->aw[u]>t->vc[u]||l->ar[u]>t->vc[u])) race(a+i,wr==2?"release":"plain write",u,"an atomic access"); }
      x->w=mine; for(int u=0;u<MAXT;u++) x->r[u]=0;
    }
  }
}
static inline void ck(const void*p,size_t n,int wr){
  if(!LIVE()) return;
  if(unlikely(++ticks>tick_limit)) viol("liveness","operation did not finish within %llu memory accesses: T%d in '%s'",(unsigned long long)tick_limit,self->id,self->op);
  u64 a=(u64)p;
  if(a-STACK_BASE<STACK_STRIDE*MAXT) return;
  nacc++;
  if(cfg.fine&&multi&&(a-ARENA_BASE<ARENA_SIZE)&&ticks%cfg.fine==0) preempt("access",0x8000,0);
  acc(a,n,wr);
}
void sim_check_range(const void*p,size_t n,int wr){ ck(p,n,wr); }

static void aplain(u64 a,u32 size,int wr){ // check an atomic access against plain accesses
  int arena; struct cell*c=cell_of(a,&arena); struct thr*t=self; int me=t->id;
  if(!c) return;
  if(arena) for(u32 i=0;i<size;i++) if(c[i].st!=1) bad_access(a+i,size,wr,c[i].st);
  if(!multi) return;
  for(u32 i=0;i<size;i++){ struct cell*x=c+i;
    if(x->w){ u32 wt=x->w>>28,wc=x->w&0xfffffff; if(wc>t->vc[wt]) race(a+i,wr?"atomic write":"atomic read",wt,"a plain write"); }
    if(wr) for(int u=0;u<MAXT;u++) if(u!=me&&x->r[u]>t->vc[u]) race(a+i,"atomic write",u,"a plain read");
  }
}
static struct st* last(struct aloc*l){ return &l->hs[l->mo%HN]; }
static void hist_sync(struct aloc*l,u64 v){ // memory changed behind our back (plain initialisation or get_mut): restart the history
  if(l->n==0||last(l)->val!=v){ l->mo++; l->n=1; struct st*s=last(l); __real_memset(s,0,sizeof *s); s->val=v; s->mo=l->mo; s->init=1; }
}
enum { RLX,CON,ACQ,REL,ACR,SC };
static int isacq(int m){ return m==CON||m==ACQ||m==ACR||m==SC; }
static int isrel(int m){ return m==REL||m==ACR||m==SC; }
static void readfrom(struct aloc*l,struct st*s,int mo){
  struct thr*t=self;
  if(l->seen[t->id]<s->mo) l->seen[t->id]=s->mo;
  if(s->hasrel){ if(isacq(mo)) vjoin(t->vc,s->rel); else vjoin(t->acqp,s->rel); }
}
static void pushst(struct aloc*l,u64 v,int mo,struct st*seq){ // seq: release sequence continued by an RMW
  struct thr*t=self; u32 rel[MAXT]={0}; int hr=0;
  if(isrel(mo)){ vcpy(rel,t->vc); hr=1; } else if(t->has_relf){ vcpy(rel,t->relf); hr=1; }
  if(seq&&seq->hasrel){ vjoin(rel,seq->rel); hr=1; }
  l->mo++; if(l->n<HN) l->n++;
  struct st*s=last(l); s->val=v; s->mo=l->mo; s->tid=(u8)t->id; s->clk=t->vc[t->id]; s->hasrel=(u8)hr; s->init=0; vcpy(s->rel,rel);
  l->seen[t->id]=l->mo;
  l->aw[t->id]=t->vc[t->id];
  if(isrel(mo)) t->vc[t->id]++;
}
// A thread that has used a sequentially consistent operation gets no stale values any more: sound, weaker than C11.
static void sc_mark(void){ self->nostale=1; }

static u64 at_load(u64 a,u32 size,int mo){
  struct thr*t=self;
  ticks++; R->atomics++;
  preempt("load",0x1000^norm(a)<<8,0);
  aplain(a,size,0);
  struct aloc*l=aloc_get(a,size,1);
  u64 v=rdval(a,size);
  hist_sync(l,v);
  l->ar[t->id]=t->vc[t->id];
  struct st*s=last(l);
  if(mo==SC) sc_mark();
  else if(multi&&!t->nostale&&l->region&&l->n>1){
    // lowest modification index this thread may still read
    u32 lo=l->mo-l->n+1; if(l->seen[t->id]>lo) lo=l->seen[t->id]; if(l->rseen>lo) lo=l->rseen; // the latter: read-read coherence, conservatively
    for(u32 m=l->mo;m>lo;m--){ struct st*x=&l->hs[m%HN]; if(x->init||x->clk<=t->vc[x->tid]){ lo=m; break; } }
    if(lo<l->mo){ u32 f=fault(1,l->mo-lo,cfg.stale_p); if(f){ s=&l->hs[(l->mo-f)%HN]; R->stale++; } }
  }
  readfrom(l,s,mo); if(l->rseen<s->mo) l->rseen=s->mo;
  mix(s->val);
  return s->val;
}
static void at_store(u64 a,u32 size,u64 v,int mo){
  ticks++; R->atomics++;
  preempt("store",0x2000^norm(a)<<8,0);
  aplain(a,size,1);
  struct aloc*l=aloc_get(a,size,1);
  hist_sync(l,rdval(a,size));
  if(mo==SC) sc_mark();
  wrval(a,size,v);
  pushst(l,v,mo,0);
}
static u64 mask(u32 size){ return size==8?~0ull:((1ull<<(size*8))-1); }
enum { OP_XCHG,OP_ADD,OP_SUB,OP_AND,OP_OR,OP_XOR,OP_NAND };
static u64 at_rmw(u64 a,u32 size,int op,u64 v,int mo){
  ticks++; R->atomics++;
  preempt(op==OP_ADD?"fetch_add":op==OP_SUB?"fetch_sub":"rmw",0x3000^norm(a)<<8,0);
  aplain(a,size,1);
  struct aloc*l=aloc_get(a,size,1);
  u64 o=rdval(a,size); hist_sync(l,o);
  struct st sq=*last(l);
  if(mo==SC) sc_mark();
  readfrom(l,last(l),mo);
  u64 n=0; switch(op){case OP_XCHG:n=v;break;case OP_ADD:n=o+v;break;case OP_SUB:n=o-v;break;case OP_AND:n=o&v;break;case OP_OR:n=o|v;break;case OP_XOR:n=o^v;break;case OP_NAND:n=~(o&v);break;}
  n&=mask(size);
  wrval(a,size,n);
  pushst(l,n,mo,&sq);
  mix(o);
  return o;
}
static u64 at_cas(u64 a,u32 size,u64 exp,u64 v,int mo,int fmo){
  ticks++; R->atomics++;
  preempt("cas",0x4000^norm(a)<<8,0);
  struct thr*t=self;
  struct aloc*l;
  u64 o=rdval(a,size);
  if(o==exp){
    aplain(a,size,1);
    l=aloc_get(a,size,1); hist_sync(l,o);
    struct st sq=*last(l);
    if(mo==SC) sc_mark();
    readfrom(l,last(l),mo);
    wrval(a,size,v&mask(size)); pushst(l,v&mask(size),mo,&sq);
  } else {
    aplain(a,size,0);
    l=aloc_get(a,size,1); hist_sync(l,o);
    l->ar[t->id]=t->vc[t->id];
    readfrom(l,last(l),fmo); l->rseen=l->mo;
  }
  mix(o);
  return o;
}

// ---------------------------------------------------------------- __tsan_* entry points
#define ANY LIVE()
#define PLAIN(N) void __tsan_read##N(void*p){ck(p,N,0);} void __tsan_write##N(void*p){ck(p,N,1);} \
  void __tsan_unaligned_read##N(void*p){ck(p,N,0);} void __tsan_unaligned_write##N(void*p){ck(p,N,1);} \
  void __tsan_read_write##N(void*p){ck(p,N,0);ck(p,N,1);} void __tsan_unaligned_read_write##N(void*p){ck(p,N,0);ck(p,N,1);} \
  void __tsan_volatile_read##N(void*p){ck(p,N,0);} void __tsan_volatile_write##N(void*p){ck(p,N,1);} \
  void __tsan_unaligned_volatile_read##N(void*p){ck(p,N,0);} void __tsan_unaligned_volatile_write##N(void*p){ck(p,N,1);}
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_init(void){}
void __tsan_func_entry(void*p){ (void)p; if(LIVE()&&unlikely(++ticks>tick_limit)) viol("liveness","operation did not finish within %llu steps: T%d in '%s'",(unsigned long long)tick_limit,self->id,self->op); }
void __tsan_func_exit(void){}
void __tsan_ignore_thread_begin(void){} void __tsan_ignore_thread_end(void){}
void __tsan_vptr_update(void**p,void*v){ck(p,8,1);} void __tsan_vptr_read(void**p){ck(p,8,0);}
void __tsan_read_range(void*p,size_t n){ck(p,n,0);} void __tsan_write_range(void*p,size_t n){ck(p,n,1);}
void *__tsan_memcpy(void*d,const void*s,size_t n){ ck(s,n,0); ck(d,n,1); return __real_memcpy(d,s,n); }
void *__tsan_memmove(void*d,const void*s,size_t n){ ck(s,n,0); ck(d,n,1); return __real_memmove(d,s,n); }
void *__tsan_memset(void*d,int c,size_t n){ ck(d,n,1); return __real_memset(d,c,n); }
void *__wrap_memcpy(void*d,const void*s,size_t n){ ck(s,n,0); ck(d,n,1); return __real_memcpy(d,s,n); }
void *__wrap_memmove(void*d,const void*s,size_t n){ ck(s,n,0); ck(d,n,1); return __real_memmove(d,s,n); }
void *__wrap_memset(void*d,int c,size_t n){ ck(d,n,1); return __real_memset(d,c,n); }
int __wrap_memcmp(const void*a,const void*b,size_t n){ ck(a,n,0); ck(b,n,0); return __real_memcmp(a,b,n); }
int __wrap_bcmp(const void*a,const void*b,size_t n){ ck(a,n,0); ck(b,n,0); return __real_bcmp(a,b,n); }

#define ATOM(B,TY) \
TY __tsan_atomic##B##_load(const volatile TY*p,int mo){ if(!ANY) return __atomic_load_n(p,5); return (TY)at_load((u64)p,sizeof(TY),mo); } \
void __tsan_atomic##B##_store(volatile TY*p,TY v,int mo){ if(!ANY){__atomic_store_n(p,v,5);return;} at_store((u64)p,sizeof(TY),v,mo); } \
TY __tsan_atomic##B##_exchange(volatile TY*p,TY v,int mo){ if(!ANY) return __atomic_exchange_n(p,v,5); return (TY)at_rmw((u64)p,sizeof(TY),OP_XCHG,v,mo); } \
TY __tsan_atomic##B##_fetch_add(volatile TY*p,TY v,int mo){ if(!ANY) return __atomic_fetch_add(p,v,5); return (TY)at_rmw((u64)p,sizeof(TY),OP_ADD,v,mo); } \
TY __tsan_atomic##B##_fetch_sub(volatile TY*p,TY v,int mo){ if(!ANY) return __atomic_fetch_sub(p,v,5); return (TY)at_rmw((u64)p,sizeof(TY),OP_SUB,v,mo); } \
TY __tsan_atomic##B##_fetch_and(volatile TY*p,TY v,int mo){ if(!ANY) return __atomic_fetch_and(p,v,5); return (TY)at_rmw((u64)p,sizeof(TY),OP_AND,v,mo); } \
TY __tsan_atomic##B##_fetch_or(volatile TY*p,TY v,int mo){ if(!ANY) return __atomic_fetch_or(p,v,5); return (TY)at_rmw((u64)p,sizeof(TY),OP_OR,v,mo); } \
TY __tsan_atomic##B##_fetch_xor(volatile TY*p,TY v,int mo){ if(!ANY) return __atomic_fetch_xor(p,v,5); return (TY)at_rmw((u64)p,sizeof(TY),OP_XOR,v,mo); } \
TY __tsan_atomic##B##_fetch_nand(volatile TY*p,TY v,int mo){ if(!ANY) return __atomic_fetch_nand(p,v,5); return (TY)at_rmw((u64)p,sizeof(TY),OP_NAND,v,mo); } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY*p,TY c,TY v,int mo,int fmo){ if(!ANY){ __atomic_compare_exchange_n(p,&c,v,0,5,5); return c; } return (TY)at_cas((u64)p,sizeof(TY),c,v,mo,fmo); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY*p,TY*c,TY v,int mo,int fmo){ TY o=__tsan_atomic##B##_compare_exchange_val(p,*c,v,mo,fmo); if(o==*c) return 1; *c=o; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY*p,TY*c,TY v,int mo,int fmo){ return __tsan_atomic##B##_compare_exchange_strong(p,c,v,mo,fmo); }
ATOM(8,u8) ATOM(16,u16) ATOM(32,u32) ATOM(64,u64)
void __tsan_atomic_thread_fence(int mo){
  if(!ANY){ __atomic_thread_fence(5); return; }
  struct thr*t=self; ticks++; R->atomics++;
  preempt("fence",0x4800+(u64)mo,0);
  if(isacq(mo)){ vjoin(t->vc,t->acqp); }
  if(mo==SC) sc_mark();
  if(isrel(mo)){ vcpy(t->relf,t->vc); t->has_relf=1; t->vc[t->id]++; }
}
void __tsan_atomic_signal_fence(int mo){ (void)mo; }

// ---------------------------------------------------------------- simulated system calls
static int futex_wait(u32*addr,u32 val,u64 timeout,u32 m){
  struct thr*t=self;
  preempt("futex_wait",0x9000,0);
  if(*(volatile u32*)addr!=val){ errno=EAGAIN; return -1; }
  if(fault(2,1,cfg.wake_p)){ errno=EINTR; return -1; } // interrupted wait
  if(cfg.wake_p&&fault(3,1,cfg.wake_p)) return 0;      // spurious wake-up
  t->state=T_FUTEX; t->wkey=(u64)addr; t->wmask=m; t->wres=0; t->deadline=timeout?simclock+timeout:0;
  block("futex_wait");
  t->deadline=0;
  if(t->wres){ errno=t->wres; return -1; }
  return 0;
}
static int futex_wake(u32*addr,int n,u32 m){
  int c=0;
  preempt("futex_wake",0x9100,0);
  while(c<n){
    int ws[MAXT],k=0; for(int i=0;i<nthr;i++) if(T[i].state==T_FUTEX&&T[i].wkey==(u64)addr&&(T[i].wmask&m)) ws[k++]=i;
    if(!k) break;
    u32 x=k>1?fault(4,(u32)k-1,R->replay?0:2):0;
    T[ws[x]].state=T_RUN; T[ws[x]].wres=0; c++;
  }
  return c;
}
long syscall(long n,...){
  va_list ap; va_start(ap,n);
  long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long);
  va_end(ap);
  if(n==SYS_futex&&active&&self){
    int op=(int)b&~(FUTEX_PRIVATE_FLAG|FUTEX_CLOCK_REALTIME);
    u64 to=0; if(d&&(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET)){ struct timespec*ts=(void*)d; u64 x=(u64)ts->tv_sec*1000000000ull+(u64)ts->tv_nsec; to=op==FUTEX_WAIT?x:(x>simclock?x-simclock:1); if(!to)to=1; }
    if(op==FUTEX_WAIT) return futex_wait((u32*)a,(u32)c,to,~0u);
    if(op==FUTEX_WAIT_BITSET) return futex_wait((u32*)a,(u32)c,to,(u32)f);
    if(op==FUTEX_WAKE) return futex_wake((u32*)a,(int)c,~0u);
    if(op==FUTEX_WAKE_BITSET) return futex_wake((u32*)a,(int)c,(u32)f);
  }
  if(n==SYS_getrandom&&active&&self){ u8*p=(u8*)a; for(long i=0;i<b;i++) p[i]=(u8)rnd(&gM); return b; }
  long r=rsys(n,a,b,c,d,e,f);
  if(r<0&&r>-4096){ errno=(int)-r; return -1; }
  return r;
}
int sched_yield(void){ if(active&&self){ sim_yield(); return 0; } rsys(SYS_sched_yield,0,0,0,0,0,0); return 0; }
ssize_t getrandom(void*p,size_t n,unsigned fl){ if(active&&self){ for(size_t i=0;i<n;i++) ((u8*)p)[i]=(u8)rnd(&gM); return (ssize_t)n; } return rsys(SYS_getrandom,(long)p,(long)n,fl,0,0,0); }
int clock_gettime(clockid_t id,struct timespec*ts){
  if(active&&self){ simclock+=100; u64 v=simclock+1000000000000ull; ts->tv_sec=(time_t)(v/1000000000ull); ts->tv_nsec=(long)(v%1000000000ull); return 0; }
  long r=rsys(SYS_clock_gettime,id,(long)ts,0,0,0,0); if(r<0){errno=(int)-r;return -1;} return 0;
}
int nanosleep(const struct timespec*a,struct timespec*b){
  if(active&&self){ struct thr*t=self; t->state=T_KEY; t->wkey=~0ull; t->deadline=simclock+(u64)a->tv_sec*1000000000ull+(u64)a->tv_nsec+1; block("sleep"); return 0; }
  long r=rsys(SYS_nanosleep,(long)a,(long)b,0,0,0,0); if(r<0){errno=(int)-r;return -1;} return 0;
}
int sched_getaffinity(pid_t pid,size_t n,cpu_set_t*s){ (void)pid; __real_memset(s,0,n); if(n) *(u8*)s=3; return 0; }

// ---------------------------------------------------------------- harness services
void sim_op(const char*s,size_t n){ if(!active||!self) return; if(n>=sizeof self->op) n=sizeof self->op-1; __real_memcpy(self->op,s,n); self->op[n]=0; R->ops++; dolog("   T%d op: %s\n",self->id,self->op); }
void sim_logs(const char*s,size_t n){ if(active) dolog("   T%d %.*s\n",self?self->id:99,(int)n,s); }
int sim_log_on(void){ return active&&R->log_on; }
void sim_note(u64 x){ if(active) mix(x); }
void sim_state(u64 x){ if(!active) return; u32 n=R->nST; for(u32 i=0;i<n;i++) if(R->ST[i]==x) return; if(n<MAXST) R->ST[R->nST++]=x; }
void sim_nontrivial(void){ if(active) R->nontrivial=1; }
int sim_ignore(int d){ if(!self) return 0; self->ignore+=d; return self->ignore; }
int sim_set_ignore(int v){ if(!self) return 0; int o=self->ignore; self->ignore=v; return o; }
int sim_faults(int on){ if(!self) return 0; int o=self->faults; self->faults=on; return o; }
int sim_noalloc(int d){ if(!self) return 0; self->noalloc+=d; return self->noalloc; }
int sim_tid(void){ return self?self->id:-1; }
u64 sim_time(void){ return simclock; }
void sim_advance(u64 ns){ simclock+=ns; }
void sim_leak_ok(void){ leak_ok=1; }
u64 sim_seed(void){ return R?R->seed:0; }
u64 sim_steps(void){ return R->steps; }
// a workload with much data may take more steps
void sim_extend(u64 n){ soft_limit+=20*n; hard_limit+=400*n; }
// run-level fault configuration, drawn from the seed unless replaying
void sim_profile(u32 what){ // bit0: allocation faults wanted, bit1: general faults wanted
  if(!(what&1)) cfg.alloc_mode=0;
  if(!(what&2)) cfg.gen_p=0;
}
static void leak_check(void){
  if(leak_ok) return;
  u32 n=0; struct blk*f=0; u64 by=0;
  for(u32 i=0;i<nblk;i++) if(B[i].live&&!B[i].noleak){ if(!f) f=&B[i]; n++; by+=B[i].size; }
  if(n) viol("leak","%u block(s), %llu bytes never released; first: #%u size %u align %u allocated by T%d in '%s'",n,(unsigned long long)by,f->seq,f->size,f->align,f->tid,f->op);
}
// once per process (before forking)
void sim_global_init(void){
  void*p;
  p=mmap((void*)ARENA_BASE,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)ARENA_BASE) goto bad;
  p=mmap((void*)SHADOW_BASE,ARENA_SIZE*sizeof(struct cell),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)SHADOW_BASE) goto bad;
  size_t g=((size_t)(_end-__data_start)*sizeof(struct cell)+8191)&~4095ull;
  p=mmap((void*)GSHADOW_BASE,g,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)GSHADOW_BASE) goto bad;
  p=mmap((void*)STACK_BASE,STACK_STRIDE*MAXT,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)STACK_BASE) goto bad;
  for(int i=0;i<MAXT;i++) mprotect((void*)(STACK_BASE+i*STACK_STRIDE+STACK_SIZE),STACK_STRIDE-STACK_SIZE,PROT_NONE);
  B=mmap(0,sizeof(struct blk)*MAXB,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  A=mmap(0,sizeof(struct aloc)*MAXA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  ahash=mmap(0,MAXA*4*4,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  pthread_key_create(&endkey,thread_end);
  return;
bad: fprintf(stderr,"dsim: cannot map the simulation address space\n"); _exit(3);
}
// in the forked child: run fn as simulated thread 0 and everything it spawns to completion
void sim_run(struct result*r,void(*fn)(void*),void*arg){
  R=r;
  u64 s=r->seed;
  gW.s=s*0x9E3779B97F4A7C15ull+1; gS.s=s*0xD1B54A32D192ED03ull+2; gF.s=s*0x8CB92BA72F3D8DD7ull+3; gM.s=(r->replay?s:s)*0xA24BAED4963EE407ull+4;
  rnd(&gW);rnd(&gS);rnd(&gF);rnd(&gM);
  static const u32 ps[]={1,2,3,6,16,48};
  if(!r->replay){
    u32 x=(u32)(rnd(&gS)%16);
    cfg.strat= x<7?0: x<11?1: x<13?2: x<15?3:4;
    cfg.p=ps[rnd(&gS)%6];
    static const u32 hz[]={20,60,200,800}; u32 H=hz[rnd(&gS)%4];
    cfg.ncp=(int)(rnd(&gS)%4); for(int i=0;i<cfg.ncp;i++) cfg.cp[i]=(u32)(rnd(&gS)%H);
    cfg.victim=(int)(rnd(&gS)%MAXT); cfg.va=(u32)(rnd(&gS)%60); cfg.vb=cfg.va+(u32)(rnd(&gS)%400);
    cfg.q=1+(u32)(rnd(&gS)%8);
    cfg.fine=rnd(&gS)%8==0?(u32)(1+rnd(&gS)%40):0;
    u32 y=(u32)(rnd(&gF)%8);
    cfg.alloc_mode= y<3?1: y<4?2: y<5?3:0;
    cfg.alloc_n=1+(u32)(rnd(&gF)%(rnd(&gF)%3==0?80:14)); cfg.alloc_p= cfg.alloc_mode==3?1+(u32)(rnd(&gF)%5):3+(u32)(rnd(&gF)%20);
    static const u32 sps[]={0,2,4,16}; cfg.stale_p=sps[rnd(&gF)%4];
    static const u32 wps[]={0,0,3,10}; cfg.wake_p=wps[rnd(&gF)%4];
    static const u32 gps[]={0,3,8,24}; cfg.gen_p=gps[rnd(&gF)%4];
  }
  cfg.fine=cfg.fine; if(r->replay) { cfg.fine=r->pad; } else r->pad=cfg.fine;
  active=1;
  sim_spawn(fn,arg);
  give(&T[0]);
  while(!__atomic_load_n(&alldone,__ATOMIC_SEQ_CST)) rsys(SYS_futex,(long)&alldone,FUTEX_WAIT_PRIVATE,0,0,0,0);
  leak_check();
  finish_stats();
  __atomic_store_n(&R->status,1,__ATOMIC_SEQ_CST);
}
