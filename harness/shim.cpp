// A small OpenMP runtime that stands in for libgomp when the real library code is run under a monitor.
//  - default: threads are fibers on one OS thread, switched by a seeded scheduler (deterministic replay),
//    with bounded run-ahead between work-shares, and preemption at observed memory accesses (hook.cpp)
//  - -DSHIM_PTHREAD: real threads; only fork, join, barrier and locks are announced to ThreadSanitizer
// Not instrumented itself.
#include "shim.h"
#include <link.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <vector>
#include <atomic>
#include <algorithm>
#ifdef SHIM_PTHREAD
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#endif

extern "C" {
void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void *fake, const void **bottom, size_t *size) __attribute__((weak));
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
void shimhook_region_begin(int nthreads) __attribute__((weak));
void shimhook_region_end(void) __attribute__((weak));
void shimhook_epoch(void) __attribute__((weak));
void shimhook_task(void) __attribute__((weak));
void shimhook_dynamic(void) __attribute__((weak));
}

namespace {
typedef unsigned long long ull;
const int MAXT = 160;
int g_short=0; uint64_t g_srng=1;

struct WorkShare {
	long start=0,end=0,incr=1,chunk=1; ull ustart=0,uend=0,uincr=1,uchunk=1; bool isull=false,up=true;
	bool isstatic=false, guided=false;
	std::atomic<long> next{0};          // chunk counter (iteration space measured in chunks)
	long nchunks=0; ull niter=0;
	std::atomic<int> inited{0};
	std::atomic<int> single_taken{0};
	std::atomic<int> section_next{0}; int nsections=0;
	long serial=0; void *copydata=nullptr;
};

struct Team {
	int n=1;
	std::vector<WorkShare*> ws;        // created on demand
	std::atomic_flag lk = ATOMIC_FLAG_INIT;
	void (*fn)(void*)=nullptr; void *data=nullptr;
	// barrier
	std::atomic<int> bar_count{0}; std::atomic<int> bar_gen{0};
	bool combined=false;               // first work-share preset by GOMP_parallel_loop_*
	~Team(){ for(auto w: ws) delete w; }
	WorkShare *get(int k){
		while(lk.test_and_set(std::memory_order_acquire)) ;
		while((int)ws.size()<=k) ws.push_back(new WorkShare());
		WorkShare *w=ws[k];
		lk.clear(std::memory_order_release);
		return w;
	}
};

struct Ctx {                          // OpenMP thread context
	Team *team=nullptr; int tid=0; int wsended=0; WorkShare *cur=nullptr; long static_pos=0;
	Ctx *parent=nullptr; bool parallel=false, foreign=false;
};

int g_nthreads = 0;
int g_policy=SHIM_INORDER, g_delay=0, g_quantum=0; uint64_t g_rng=0x1234567;
ShimStats S;
int schedkind=2, schedchunk=1;

inline uint64_t rnd(){ uint64_t z=(g_rng+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL;
	z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
int deft(){ if(g_nthreads<=0){ const char*e=getenv("OMP_NUM_THREADS"); g_nthreads=e?atoi(e):4; if(g_nthreads<1)g_nthreads=1; if(g_nthreads>MAXT)g_nthreads=MAXT;} return g_nthreads; }

Team *new_serial_team(){ Team *t=new Team(); t->n=1; return t; }

#ifndef SHIM_PTHREAD
// ------------------------------------------------------------------ fibers
struct Fiber {
	void *sp=nullptr; char *stack=nullptr; size_t stacksz=0; Ctx ctx; Ctx *cur=nullptr;
	enum {RUN,BAR,DELAY,DONE} st=DONE; int wantws=0; void *fake=nullptr; int prio=0; long hold=0; char *tls=nullptr;
};
Fiber fibers[MAXT];
// thread_local data of the code under test: one copy per fiber, put in place at every switch; thread 0 of a team is the caller
char *tls_live=nullptr, *main_tls=nullptr; const char *tls_image=nullptr; size_t tls_size=0, tls_file=0; bool tls_known=false;
void tls_find(){ if(tls_known) return; tls_known=true;
	dl_iterate_phdr([](struct dl_phdr_info*i,size_t,void*)->int{
		for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_TLS){ tls_live=(char*)i->dlpi_tls_data; tls_size=i->dlpi_phdr[k].p_memsz; tls_file=i->dlpi_phdr[k].p_filesz; tls_image=(const char*)i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; }
		return 1; // the program itself comes first
	},nullptr);
	if(!tls_live) tls_size=0; if(tls_size) main_tls=(char*)malloc(tls_size); }
int nf=0, curf=-1;                     // curf==-1: main
void *main_sp; void *main_fake; const void *main_bottom; size_t main_size;
Ctx main_ctx; Ctx *cur_ctx=nullptr;
bool nopreempt_flag=false; int nopreempt=0;
long countdown=0; long pct_points=0; int victim=0;

extern "C" void shim_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl shim_switch
.type shim_switch,@function
shim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8,%rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size shim_switch,.-shim_switch
)");

Ctx *ctx(){ if(!cur_ctx){ main_ctx.team=new_serial_team(); cur_ctx=&main_ctx; } return cur_ctx; }

void to_main(bool final){
	Fiber &f=fibers[curf]; f.cur=cur_ctx;
	if(__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(final?nullptr:&f.fake, main_bottom, main_size);
	shim_switch(&f.sp, main_sp);
	if(__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(f.fake,nullptr,nullptr);
	cur_ctx=f.cur;
}
void fiber_entry(){
	if(__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(nullptr,&main_bottom,&main_size);
	Fiber &f=fibers[curf];
	cur_ctx=&f.ctx;
	f.ctx.team->fn(f.ctx.team->data);
	f.st=Fiber::DONE; f.ctx.wsended=1<<30;
	to_main(true);
	abort();
}
void set_countdown(){
	if(g_quantum<=0){ countdown=1L<<60; return; }
	switch(g_policy){
	case SHIM_INORDER: case SHIM_REVERSE: case SHIM_STARVE: countdown = g_policy==SHIM_STARVE ? 1+rnd()%(2*g_quantum) : (1L<<60); break;
	default: countdown=1+rnd()%(2*(uint64_t)g_quantum);
	}
}
void run_team(Team *t){
	nf=t->n;
	for(int i=0;i<nf;i++){
		Fiber &f=fibers[i];
		if(i==0) tls_find();
		if(tls_size&&i&&!f.tls){ f.tls=(char*)calloc(1,tls_size); memcpy(f.tls,tls_image,tls_file); }
		if(!f.stack){ f.stacksz=1<<19; f.stack=(char*)mmap(nullptr,f.stacksz+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
			if(f.stack==MAP_FAILED) abort(); mprotect(f.stack,4096,PROT_NONE); f.stack+=4096; }
		f.ctx=Ctx(); f.ctx.team=t; f.ctx.tid=i; f.ctx.parallel=true; f.ctx.parent=nullptr; f.cur=&f.ctx; f.st=Fiber::RUN; f.hold=0; f.fake=nullptr;
		f.prio=(int)(rnd()>>40);
		uint64_t *sp=(uint64_t*)(f.stack+f.stacksz); sp-=2; // alignment
		*--sp=0; *--sp=(uint64_t)&fiber_entry;   // return address (entry: rsp%16==8)
		for(int k=0;k<6;k++) *--sp=0;
		--sp; asm volatile("stmxcsr (%0)\n fnstcw 4(%0)"::"r"(sp):"memory");
		f.sp=sp;
	}
	victim=(int)(rnd()%nf);
	if(shimhook_region_begin) shimhook_region_begin(nf);
	Ctx *save=cur_ctx;
	int last=-1;
	for(;;){
		int mincur=1<<30; int alive=0, atbar=0;
		for(int i=0;i<nf;i++){ Fiber&f=fibers[i]; if(f.st!=Fiber::DONE){ alive++; mincur=std::min(mincur,f.ctx.wsended); if(f.st==Fiber::BAR) atbar++; } }
		if(!alive) break;
		if(atbar==alive){ for(int i=0;i<nf;i++) if(fibers[i].st==Fiber::BAR) fibers[i].st=Fiber::RUN; if(shimhook_epoch) shimhook_epoch(); S.barriers++; }
		int cand[MAXT], nc=0;
		for(int i=0;i<nf;i++){ Fiber&f=fibers[i];
			if(f.st==Fiber::DELAY && f.wantws<=mincur+g_delay) f.st=Fiber::RUN;
			if(f.st==Fiber::RUN) cand[nc++]=i; }
		if(!nc){ // cannot happen unless barrier mismatch
			fprintf(stderr,"shim: deadlock in a parallel region (threads wait for each other)\n"); abort(); }
		int pick=cand[0];
		switch(g_policy){
		case SHIM_INORDER: pick=cand[0]; break;
		case SHIM_REVERSE: pick=cand[nc-1]; break;
		case SHIM_RANDOM: pick=cand[rnd()%nc]; break;
		case SHIM_STARVE: { int k=0,o[MAXT]; for(int j=0;j<nc;j++) if(cand[j]!=victim) o[k++]=cand[j];
			pick = k? o[rnd()%k] : victim;
			if(rnd()%64==0) victim=(int)(rnd()%nf); break; }
		case SHIM_LIFO: { // work on the chunk taken last, as if the other threads were held up right after taking theirs
			for(int j=1;j<nc;j++){ long a=fibers[cand[j]].hold,b=fibers[pick].hold; if((a==0&&b!=0)||(a&&b&&a>b)) pick=cand[j]; }
			if(rnd()%16==0) pick=cand[rnd()%nc]; break; }
		case SHIM_PCT: { for(int j=1;j<nc;j++) if(fibers[cand[j]].prio>fibers[pick].prio) pick=cand[j];
			if(rnd()%8==0) fibers[pick].prio=(int)(rnd()>>41)-(1<<22); break; }
		}
		set_countdown();
		if(pick!=last) S.switches++;
		last=pick;
		S.trace_hash = (S.trace_hash ^ (uint64_t)(pick+1))*0x100000001b3ULL + S.region_accesses;
		curf=pick;
		Fiber &f=fibers[pick];
		if(__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&main_fake, f.stack, f.stacksz);
		cur_ctx=f.cur;
		if(tls_size&&pick){ memcpy(main_tls,tls_live,tls_size); memcpy(tls_live,f.tls,tls_size); }
		shim_switch(&main_sp, f.sp);
		if(tls_size&&pick){ memcpy(f.tls,tls_live,tls_size); memcpy(tls_live,main_tls,tls_size); }
		if(__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(main_fake,nullptr,nullptr);
		curf=-1;
	}
	cur_ctx=save;
	if(shimhook_region_end) shimhook_region_end();
}
void yield_now(){ if(curf>=0 && !nopreempt) to_main(false); }
void release_now(){ if(curf>=0) fibers[curf].hold=0; }
long holds=0; void hold_now(){ if(curf>=0 && !nopreempt){ fibers[curf].hold=++holds; to_main(false); } }
void do_barrier(){ if(curf<0 || ctx()->team->n<=1) return; fibers[curf].st=Fiber::BAR; to_main(false); }
void delay_gate(Ctx*c){
	if(curf<0 || c->team->n<=1) return;
	int mincur=1<<30; for(int i=0;i<nf;i++) if(fibers[i].st!=Fiber::DONE) mincur=std::min(mincur,fibers[i].ctx.wsended);
	S.maxlead=std::max<uint64_t>(S.maxlead,(uint64_t)std::max(0,std::min(c->wsended-mincur,g_delay)));
	if(c->wsended>mincur+g_delay){ fibers[curf].st=Fiber::DELAY; fibers[curf].wantws=c->wsended; to_main(false); }
	else yield_now();
}
void lock_enter(){ nopreempt++; }
void lock_exit(){ nopreempt--; }
#else
// ------------------------------------------------------------------ real threads
thread_local Ctx *cur_ctx=nullptr;
thread_local Ctx base_ctx;
struct Worker { pthread_t th; std::atomic<int> gen{0}; };
std::atomic<int> pool_gen{0}; std::atomic<Team*> pool_team{nullptr}; std::atomic<int> pool_done{0};
int pool_size=0; Worker workers[MAXT];
std::atomic_flag glock=ATOMIC_FLAG_INIT; char glock_tag, fork_tag, join_tag, bar_tag[2];
int nopreempt=0;
Ctx *ctx(){ if(!cur_ctx){ base_ctx.team=new_serial_team(); cur_ctx=&base_ctx; } return cur_ctx; }
void jitter(){ static thread_local uint64_t s=0; if(!s) s=(uint64_t)pthread_self()>>6; s=s*6364136223846793005ULL+1442695040888963407ULL; if((s>>60)<3) sched_yield(); }
void *worker(void *p){
	int id=(int)(intptr_t)p, seen=0;
	for(;;){
		int spin=0;
		while(pool_gen.load(std::memory_order_acquire)==seen){ if(++spin>200){ sched_yield(); } }
		seen=pool_gen.load(std::memory_order_acquire);
		Team *t=pool_team.load(std::memory_order_acquire);
		if(id<t->n){
			if(__tsan_acquire) __tsan_acquire(&fork_tag);
			Ctx c; c.team=t; c.tid=id; c.parallel=true; Ctx*sv=cur_ctx; cur_ctx=&c;
			t->fn(t->data);
			cur_ctx=sv;
			if(__tsan_release) __tsan_release(&join_tag);
		}
		pool_done.fetch_add(1,std::memory_order_acq_rel);
	}
	return nullptr;
}
void run_team(Team *t){
	while(pool_size<MAXT-1 && pool_size<15){ pool_size++; if(pthread_create(&workers[pool_size].th,nullptr,worker,(void*)(intptr_t)pool_size)) abort(); }
	if(t->n>pool_size+1) t->n=pool_size+1;
	pool_done.store(0); pool_team.store(t);
	if(__tsan_release) __tsan_release(&fork_tag);
	pool_gen.fetch_add(1,std::memory_order_acq_rel);
	Ctx c; c.team=t; c.tid=0; c.parallel=true; Ctx*sv=ctx(); cur_ctx=&c;
	t->fn(t->data);
	cur_ctx=sv;
	while(pool_done.load(std::memory_order_acquire)<pool_size) sched_yield();
	if(__tsan_acquire) __tsan_acquire(&join_tag);
}
void yield_now(){ jitter(); }
void hold_now(){ jitter(); }
void release_now(){}
void do_barrier(){
	Team *t=ctx()->team; if(t->n<=1) return;
	int g=t->bar_gen.load(std::memory_order_acquire);
	if(__tsan_release) __tsan_release(&bar_tag[g&1]);
	if(t->bar_count.fetch_add(1,std::memory_order_acq_rel)==t->n-1){ t->bar_count.store(0); t->bar_gen.fetch_add(1,std::memory_order_acq_rel); }
	else while(t->bar_gen.load(std::memory_order_acquire)==g) sched_yield();
	if(__tsan_acquire) __tsan_acquire(&bar_tag[g&1]);
}
void delay_gate(Ctx*){ jitter(); }
void lock_enter(){ while(glock.test_and_set(std::memory_order_acquire)) sched_yield(); if(__tsan_acquire) __tsan_acquire(&glock_tag); }
void lock_exit(){ if(__tsan_release) __tsan_release(&glock_tag); glock.clear(std::memory_order_release); }
#endif

// ------------------------------------------------------------------ common work-share code
// log of the chunks of dynamically scheduled loops, in the order in which they are handed to their threads
std::vector<ShimChunk> clog_; bool clog_on=false; std::atomic<long> wserial{0};
void log_chunk(Ctx*c,WorkShare*w,long lo,long hi){ if(!clog_on||w->isstatic) return; ShimChunk k; k.loop=w->serial; k.tid=c->tid; k.start=w->start; k.end=w->end; k.incr=w->incr; k.lo=lo; k.hi=hi; clog_.push_back(k); }
void ws_setup(WorkShare *w,long start,long end,long incr,long chunk,bool st,bool guided){
	int exp=0;
	if(w->inited.compare_exchange_strong(exp,1)){
		w->serial=++wserial; w->start=start; w->end=end; w->incr=incr; w->chunk=chunk<1?1:chunk; w->isstatic=st; w->guided=guided;
		long n = incr>0 ? (end>start?(end-start+incr-1)/incr:0) : (start>end?(start-end-incr-1)/(-incr):0);
		if(st && chunk<1) w->chunk = n>0 ? n : 1;
		w->nchunks=(n+w->chunk-1)/w->chunk; w->niter=n;
		w->inited.store(2,std::memory_order_release);
	}
	while(w->inited.load(std::memory_order_acquire)!=2) ;
}
bool ws_next(Ctx*c,long*is,long*ie){
	WorkShare*w=c->cur;
	if(shimhook_task) shimhook_task();
	release_now(); yield_now();
	long k;
	if(w->isstatic){ k=c->static_pos; c->static_pos+=c->team->n; if(k>=w->nchunks) return false; }
	else { k=w->next.fetch_add(1,std::memory_order_relaxed); if(k>=w->nchunks) return false; }
	S.chunks++;
	*is=w->start+k*w->chunk*w->incr;
	long e=w->start+(k+1)*w->chunk*w->incr;
	if((w->incr>0 && e>w->end)||(w->incr<0 && e<w->end)) e=w->end;
	*ie=e;
	hold_now(); // a thread may be held up between taking a chunk and working on it
	log_chunk(c,w,*is,e);
	return true;
}
bool ws_start(long start,long end,long incr,long chunk,bool st,bool guided,long*is,long*ie){
	Ctx*c=ctx();
	delay_gate(c);
	S.workshares++;
	if(!st && shimhook_dynamic) shimhook_dynamic();
	if(c->team->n==1 && !c->parallel){ // orphaned: fresh work-share each time
		for(auto w: c->team->ws) delete w;
		c->team->ws.clear(); c->wsended=0;
	}
	WorkShare*w=c->team->get(c->wsended);
	ws_setup(w,start,end,incr,chunk,st,guided);
	c->cur=w; c->static_pos=c->tid;
	if(!is) return true;
	return ws_next(c,is,ie);
}
void ws_end(bool wait){ Ctx*c=ctx(); c->cur=nullptr; c->wsended++; if(wait) do_barrier(); }

// unsigned long long loops: mapped to an iteration count
bool uws_map(Ctx*c,ull*is,ull*ie,bool r,long a,long b){ if(!r) return false; WorkShare*w=c->cur; *is=w->ustart+(ull)a*w->uincr; *ie = (ull)b>=w->niter? w->uend : w->ustart+(ull)b*w->uincr; return true; }
bool uws_start(bool up,ull start,ull end,ull incr,ull chunk,bool st,ull*is,ull*ie){
	Ctx*c=ctx(); ull n = up ? (end>start?(end-start+incr-1)/incr:0) : (start>end?(start-end-incr-1)/(0-incr):0);
	ws_start(0,(long)n,1,(long)chunk,st,false,nullptr,nullptr);
	WorkShare*w=c->cur; w->ustart=start; w->uend=end; w->uincr=incr; w->isull=true;
	long a,b; bool r=ws_next(c,&a,&b); return uws_map(c,is,ie,r,a,b);
}
bool uws_next(ull*is,ull*ie){ Ctx*c=ctx(); long a=0,b=0; bool r=ws_next(c,&a,&b); return uws_map(c,is,ie,r,a,b); }

void parallel_impl(void(*fn)(void*),void*data,unsigned nt,Team*t){
	S.regions++;
	Ctx*c=ctx();
	int n = nt? (int)nt : deft();
	if(!nt && g_short && n>1){ g_srng=g_srng*6364136223846793005ULL+1442695040888963407ULL; n=1+(int)((g_srng>>33)%(unsigned)n); S.short_teams++; } // OpenMP may deliver fewer threads than asked for
	if(n>MAXT) n=MAXT;
	if(c->parallel||c->foreign) n=1; // nested regions are serialised
	t->n=n; t->fn=fn; t->data=data;
	if(n==1){
		Ctx k; k.team=t; k.tid=0; k.parallel=c->parallel; k.parent=c;
		// a team of one that is not nested behaves like any other region for its work-shares
		bool top=!c->parallel; k.parallel=true; (void)top;
		cur_ctx=&k;
		fn(data);
		cur_ctx=c;
		return;
	}
	S.multi_regions++;
	run_team(t);
}
} // namespace

// exported to hook.cpp
extern "C" {
#ifndef SHIM_PTHREAD
// the copies are not destroyed one by one
int __cxa_thread_atexit(void(*)(void*),void*,void*){ return 0; }
int shimhook_istls(const char*p){ return (tls_size && p>=tls_live && p<tls_live+tls_size) || (p>=(const char*)&errno && p<(const char*)&errno+sizeof(int)); }
int shimhook_cur(void){ return curf; }
int shimhook_locked(void){ return nopreempt; }
void shimhook_stack(char **lo,char **hi){ Fiber&f=fibers[curf]; *lo=f.stack; *hi=f.stack+f.stacksz; }
int shimhook_instack(const char *p){ for(int i=0;i<nf;i++) if(i!=curf && p>=fibers[i].stack && p<fibers[i].stack+fibers[i].stacksz) return 1; return 0; }
void shimhook_tick(void){ S.region_accesses++; if(--countdown<=0){ countdown=1; yield_now(); if(countdown<=0) countdown=1; } }
#endif
ShimStats *shimhook_stats(void){ return &S; }

void shim_config(int nthreads,int policy,uint64_t seed,int delay,int quantum){ g_nthreads=nthreads<1?1:(nthreads>MAXT?MAXT:nthreads); g_policy=policy; g_rng=seed; g_delay=delay; g_quantum=quantum; }
void shim_short(int on,uint64_t seed){ g_short=on; g_srng=seed; }
void shim_foreign_call(void(*fn)(void*),void*arg){
	Ctx*c=ctx(); Team t; t.n=1; Ctx k; k.team=&t; k.foreign=true; k.parent=c;
	cur_ctx=&k; fn(arg); cur_ctx=c;
}
void shim_stats(struct ShimStats*s){ *s=S; }
void shim_log_chunks(int on){ clog_on=on!=0; if(on) clog_.clear(); }
int shim_get_chunks(const struct ShimChunk**p){ *p=clog_.data(); return (int)clog_.size(); }
void shim_reset_trace(void){ S.trace_hash=0xcbf29ce484222325ULL; }

void GOMP_parallel(void(*fn)(void*),void*data,unsigned nt,unsigned){ Team t; parallel_impl(fn,data,nt,&t); }
unsigned GOMP_parallel_reductions(void(*fn)(void*),void*data,unsigned nt,unsigned){ Team t; parallel_impl(fn,data,nt,&t); return t.n; }
static void ploop(void(*fn)(void*),void*data,unsigned nt,long start,long end,long incr,long chunk,bool st){
	Team t; WorkShare*w=t.get(0); ws_setup(w,start,end,incr,chunk,st,false); t.combined=true;
	// each thread enters with the first work-share current
	struct D{void(*fn)(void*);void*data;bool st;} d{fn,data,st};
	parallel_impl([](void*p){ D*d=(D*)p; Ctx*c=ctx(); c->cur=c->team->get(0); c->static_pos=c->tid; if(!d->st && shimhook_dynamic) shimhook_dynamic(); d->fn(d->data); },&d,nt,&t);
}
#define PLOOP(name) void GOMP_parallel_loop_##name(void(*fn)(void*),void*data,unsigned nt,long s,long e,long i,long c,unsigned){ ploop(fn,data,nt,s,e,i,c,false); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_static(void(*fn)(void*),void*data,unsigned nt,long s,long e,long i,long c,unsigned){ ploop(fn,data,nt,s,e,i,c,true); }
#define PLOOPR(name) void GOMP_parallel_loop_##name(void(*fn)(void*),void*data,unsigned nt,long s,long e,long i,unsigned){ ploop(fn,data,nt,s,e,i,schedchunk,false); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

#define LOOP(name,st) bool GOMP_loop_##name##_start(long s,long e,long i,long c,long*is,long*ie){ return ws_start(s,e,i,c,st,false,is,ie);} \
	bool GOMP_loop_##name##_next(long*is,long*ie){ return ws_next(ctx(),is,ie);} \
	bool GOMP_loop_ull_##name##_start(bool up,ull s,ull e,ull i,ull c,ull*is,ull*ie){ return uws_start(up,s,e,i,c,st,is,ie);} \
	bool GOMP_loop_ull_##name##_next(ull*is,ull*ie){ return uws_next(is,ie);}
LOOP(dynamic,false) LOOP(nonmonotonic_dynamic,false) LOOP(guided,false) LOOP(nonmonotonic_guided,false) LOOP(static,true)
#define LOOPR(name) bool GOMP_loop_##name##_start(long s,long e,long i,long*is,long*ie){ return ws_start(s,e,i,schedchunk,false,false,is,ie);} \
	bool GOMP_loop_##name##_next(long*is,long*ie){ return ws_next(ctx(),is,ie);} \
	bool GOMP_loop_ull_##name##_start(bool up,ull s,ull e,ull i,ull*is,ull*ie){ return uws_start(up,s,e,i,schedchunk,false,is,ie);} \
	bool GOMP_loop_ull_##name##_next(ull*is,ull*ie){ return uws_next(is,ie);}
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void){ ws_end(true); }
void GOMP_loop_end_nowait(void){ ws_end(false); }

bool GOMP_single_start(void){ Ctx*c=ctx(); if(c->team->n==1) return true; WorkShare*w=c->team->get(c->wsended); c->wsended++; yield_now(); return w->single_taken.fetch_add(1)==0; }
void *GOMP_single_copy_start(void){ Ctx*c=ctx(); if(c->team->n==1) return nullptr; WorkShare*w=c->team->get(c->wsended); if(w->single_taken.fetch_add(1)==0) return nullptr; do_barrier(); void*r=w->copydata; c->wsended++; return r; }
void GOMP_single_copy_end(void*d){ Ctx*c=ctx(); if(c->team->n==1) return; WorkShare*w=c->team->get(c->wsended); w->copydata=d; do_barrier(); c->wsended++; }
unsigned GOMP_sections_next(void){ Ctx*c=ctx(); yield_now(); int k=c->cur->section_next.fetch_add(1); return k<c->cur->nsections? (unsigned)k+1:0; }
unsigned GOMP_sections_start(unsigned n){ Ctx*c=ctx(); if(c->team->n==1&&!c->parallel){ for(auto w: c->team->ws) delete w; c->team->ws.clear(); c->wsended=0; } c->cur=c->team->get(c->wsended); c->cur->nsections=(int)n; return GOMP_sections_next(); }
void GOMP_sections_end(void){ ws_end(true); }
void GOMP_sections_end_nowait(void){ ws_end(false); }
void GOMP_parallel_sections(void(*fn)(void*),void*data,unsigned nt,unsigned n,unsigned){ Team t; t.get(0)->nsections=(int)n;
	struct D{void(*fn)(void*);void*data;} d{fn,data};
	parallel_impl([](void*p){ D*d=(D*)p; Ctx*c=ctx(); c->cur=c->team->get(0); d->fn(d->data); },&d,nt,&t); }
void GOMP_barrier(void){ do_barrier(); }
void GOMP_atomic_start(void){ yield_now(); S.atomics++; lock_enter(); }
void GOMP_atomic_end(void){ lock_exit(); }
void GOMP_critical_start(void){ yield_now(); S.atomics++; lock_enter(); }
void GOMP_critical_end(void){ lock_exit(); }
void GOMP_critical_name_start(void**){ yield_now(); S.atomics++; lock_enter(); }
void GOMP_critical_name_end(void**){ lock_exit(); }
void GOMP_task(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long size,long align,bool,unsigned,...){
	std::vector<char> b(size+align+16); char*p=(char*)(((uintptr_t)b.data()+align-1)/(align?align:1)*(align?align:1));
	if(cpy) cpy(p,data); else memcpy(p,data,size);
	fn(p); }
void GOMP_taskwait(void){} void GOMP_taskyield(void){} void GOMP_taskgroup_start(void){} void GOMP_taskgroup_end(void){}

int omp_get_num_threads(void){ return ctx()->parallel? ctx()->team->n : 1; }
int omp_get_thread_num(void){ return ctx()->tid; }
int omp_get_max_threads(void){ return deft(); }
// inside a parallel region the setting belongs to the calling task only
void omp_set_num_threads(int n){ if(ctx()->parallel) return; g_nthreads=n<1?1:(n>MAXT?MAXT:n); }
int omp_in_parallel(void){ return ctx()->parallel && ctx()->team->n>1; }
int omp_get_num_procs(void){ return 8; }
int omp_get_thread_limit(void){ return MAXT; }
int omp_get_level(void){ return ctx()->parallel; }
int omp_get_active_level(void){ return omp_in_parallel(); }
static int icv_dyn=0,icv_nested=0,icv_levels=1;
void omp_set_dynamic(int v){ if(!ctx()->parallel) icv_dyn=v!=0; } int omp_get_dynamic(void){ return icv_dyn; }
void omp_set_nested(int v){ if(!ctx()->parallel) icv_nested=v!=0; } int omp_get_nested(void){ return icv_nested; }
void omp_set_max_active_levels(int v){ if(!ctx()->parallel) icv_levels=v; } int omp_get_max_active_levels(void){ return icv_levels; }
double omp_get_wtime(void){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
double omp_get_wtick(void){ return 1e-9; }
void omp_set_schedule(int k,int c){ schedkind=k; schedchunk=c<1?1:c; }
void omp_get_schedule(int*k,int*c){ *k=schedkind; *c=schedchunk; }
void omp_init_lock(int*l){ *l=0; } void omp_destroy_lock(int*){} void omp_set_lock(int*){ yield_now(); lock_enter(); } void omp_unset_lock(int*){ lock_exit(); }
int omp_test_lock(int*){ lock_enter(); return 1; }
}
