// Observation of every memory access of library code compiled with -fsanitize=thread: this file supplies
// the instrumentation callbacks (instead of libtsan), so each access is a preemption point of the fiber
// scheduler and an event for the monitors:
//  - writes into registered read-only ranges
//  - conflicting accesses by different threads in the same barrier interval of one parallel region
#include "shim.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <vector>
#include <string>
#include <unordered_map>

extern "C" {
int shimhook_cur(void); int shimhook_locked(void); void shimhook_stack(char**,char**); void shimhook_tick(void); int shimhook_instack(const char*); int shimhook_istls(const char*);
ShimStats *shimhook_stats(void);
}
namespace {
struct RO { const char*lo,*hi; const char*name; };
RO ro[64]; int nro=0; const char *romin=(char*)~0ull,*romax=nullptr;
int racemode=0; bool inregion=false; bool dynregion=false;
int roreport=1, judge=3; char vtext[8192]; int vlen=0, vcount=0;
// shadow: one cell per byte-granule of 4 bytes; open addressing, reset per epoch by generation
struct Cell { uintptr_t key; uint32_t gen; int16_t wtid, rtid, rtid2; bool watom, ratom; uint8_t rsz,wsz; void*wpc,*rpc; uint32_t wtask,rtask,rtask2; };
std::vector<Cell> cells; uint32_t gen=1; size_t used=0;
uint32_t task_of[160]; uint32_t task_ctr=0; bool dyn_thread[160];
bool busy=false; int ginit=0;

void report(const char*fmt,const char*a,unsigned long off,void*pc,void*pc2){
	vcount++;
	if(vlen<(int)sizeof(vtext)-400) vlen+=snprintf(vtext+vlen,sizeof(vtext)-vlen,fmt,a,off,pc,pc2);
}
Cell *cell(uintptr_t k){
	if(cells.empty()) cells.resize(1<<16);
	if(used*2>cells.size()){ std::vector<Cell> o; o.swap(cells); cells.resize(o.size()*2); used=0;
		for(auto&c:o) if(c.gen==gen){ size_t i=(c.key*0x9E3779B97F4A7C15ull>>20)&(cells.size()-1); while(cells[i].gen==gen) i=(i+1)&(cells.size()-1); cells[i]=c; used++; } }
	size_t i=(k*0x9E3779B97F4A7C15ull>>20)&(cells.size()-1);
	while(cells[i].gen==gen){ if(cells[i].key==k) return &cells[i]; i=(i+1)&(cells.size()-1); }
	memset(&cells[i],0,sizeof(Cell)); cells[i].gen=gen; cells[i].key=k; cells[i].wtid=cells[i].rtid=cells[i].rtid2=-1; used++;
	shimhook_stats()->race_cells++;
	return &cells[i];
}

bool inro(uintptr_t a,int n){ const char*p=(const char*)a; if(!nro||p>=romax||p+n<=romin) return false; for(int i=0;i<nro;i++) if(p<ro[i].hi&&p+n>ro[i].lo) return true; return false; }
void conflict(uintptr_t k,bool w1,int sz1,int sz2,void*pc1,void*pc2){
	ShimStats*s=shimhook_stats();
	if(!(judge&2)) return;
	if(racemode==2 && dynregion && sz1>=8 && sz2>=8 && !inro(k<<2,4)){ s->conflicts_allowed++; return; }
	if(vcount<20) report(w1?"data race: write/write or write-after-read conflict%s at offset %lu (pc %p / %p)\n":"data race: read of concurrently written location%s at %lu (pc %p / %p)\n","",(unsigned long)k*4,pc1,pc2);
	else vcount++;
}
void race_access(uintptr_t a,int size,bool w,bool atom,void*pc){
	int t=shimhook_cur();
	uint32_t task=dyn_thread[t]?task_of[t]:0;
	int szc=size>255?255:size;
	for(uintptr_t k=a>>2;k<=(a+size-1)>>2;k++){
		Cell*c=cell(k);
		auto other=[&](int16_t tid,uint32_t){ return tid>=0 && tid!=t; };
		if(w){
			bool cf=false; void*p2=nullptr; int s2=0;
			if(other(c->wtid,c->wtask) && !(atom&&c->watom)){ cf=true; p2=c->wpc; s2=c->wsz; }
			else if(other(c->rtid,c->rtask) && !(atom&&c->ratom)){ cf=true; p2=c->rpc; s2=c->rsz; }
			else if(other(c->rtid2,c->rtask2) && !(atom&&c->ratom)){ cf=true; p2=c->rpc; s2=c->rsz; }
			if(cf) conflict(k,true,size,s2,pc,p2);
			c->wtid=t; c->wtask=task; c->watom=atom; c->wpc=pc; c->wsz=szc;
		} else {
			if(other(c->wtid,c->wtask) && !(atom&&c->watom)) conflict(k,false,size,c->wsz,pc,c->wpc);
			if(c->rtid<0){ c->rtid=t; c->rtask=task; c->ratom=atom; }
			else if((c->rtid!=t || c->rtask!=task)){ c->rtid2=t; c->rtask2=task; c->ratom=c->ratom&&atom; }
			else c->ratom=c->ratom&&atom;
			c->rpc=pc; c->rsz=szc;
		}
	}
}
// memory handed out anew has no history
void forget(void*p,size_t n){
	if(!inregion||!racemode||busy||!p||!n||cells.empty()) return;
	busy=true;
	for(uintptr_t k=(uintptr_t)p>>2;k<=((uintptr_t)p+n-1)>>2;k++){ size_t i=(k*0x9E3779B97F4A7C15ull>>20)&(cells.size()-1);
		while(cells[i].gen==gen){ if(cells[i].key==k){ cells[i].wtid=cells[i].rtid=cells[i].rtid2=-1; break; } i=(i+1)&(cells.size()-1); } }
	busy=false;
}
inline void access(const void*p,int size,bool w,bool atom,void*pc){
	if(busy) return;
	ShimStats*s=shimhook_stats(); s->accesses++;
	const char*a=(const char*)p;
	if(w && nro && roreport && (judge&1) && a<romax && a+size>romin){
		s->ro_checks++;
		for(int i=0;i<nro;i++) if(a<ro[i].hi && a+size>ro[i].lo){ if(vcount<20) report("write to read-only data: %s (byte offset %ld) pc %p%.0p\n",ro[i].name,(unsigned long)(a-ro[i].lo),pc,nullptr); else vcount++; }
	}
	if(!inregion) return;
	int t=shimhook_cur(); if(t<0) return;
	char*lo,*hi; shimhook_stack(&lo,&hi);
	if(a>=lo && a<hi) return;
	if(ginit) return;
	shimhook_tick();
	if(racemode&&!shimhook_istls(a)){ busy=true; race_access((uintptr_t)a,size,w,atom||shimhook_locked(),pc); busy=false; }
}
}
extern "C" {
void shimhook_region_begin(int){ inregion=true; dynregion=false; gen++; used=0; for(int i=0;i<160;i++){task_of[i]=0;dyn_thread[i]=false;} }
void shimhook_region_end(void){ inregion=false; }
void shimhook_epoch(void){ gen++; used=0; for(int i=0;i<160;i++) dyn_thread[i]=false; }
void shimhook_task(void){ int t=shimhook_cur(); if(t>=0){ task_of[t]=++task_ctr; dyn_thread[t]=true; } }
void shimhook_dynamic(void){ dynregion=true; }
void shim_race_mode(int m){ racemode=m; }
void shim_ro_add(const void*p,size_t len,const char*name){ if(!p||!len||nro>=64) return; ro[nro].lo=(const char*)p; ro[nro].hi=ro[nro].lo+len; ro[nro].name=name; if(ro[nro].lo<romin) romin=ro[nro].lo; if(ro[nro].hi>romax) romax=ro[nro].hi; nro++; }
void shim_judge(int m){ judge=m; }
void shim_ro_report(int on){ roreport=on; }
void shim_ro_clear(void){ nro=0; roreport=1; romin=(char*)~0ull; romax=nullptr; }
int shim_ro_mark(void){ return nro; }
void shim_ro_reset(int k){ nro=k; romin=(char*)~0ull; romax=nullptr; for(int i=0;i<nro;i++){ if(ro[i].lo<romin) romin=ro[i].lo; if(ro[i].hi>romax) romax=ro[i].hi; } }
int shim_take_violations(const char**t){ int c=vcount; vtext[sizeof(vtext)-1]=0; if(t) *t=c?vtext:""; vcount=0; vlen=0; return c; }
int shim_has_hooks(void){ return 1; }

void*__real_malloc(size_t); void*__real_calloc(size_t,size_t); int __real_posix_memalign(void**,size_t,size_t); void*__real_aligned_alloc(size_t,size_t);
void*__wrap_malloc(size_t n){ void*p=__real_malloc(n); forget(p,n); return p; }
void*__wrap_calloc(size_t a,size_t b){ void*p=__real_calloc(a,b); forget(p,a*b); return p; }
int __wrap_posix_memalign(void**q,size_t a,size_t n){ int r=__real_posix_memalign(q,a,n); if(!r) forget(*q,n); return r; }
void*__wrap_aligned_alloc(size_t a,size_t n){ void*p=__real_aligned_alloc(a,n); forget(p,n); return p; }
// initialisation of function-local statics: one thread at a time, not preempted, ordered before every use
int __cxa_guard_acquire(uint64_t*g){ if(*(char*)g) return 0; ginit++; return 1; }
void __cxa_guard_release(uint64_t*g){ *(char*)g=1; ginit--; }
void __cxa_guard_abort(uint64_t*){ ginit--; }
#define PC __builtin_return_address(0)
void __tsan_init(void){} void __tsan_func_entry(void*){} void __tsan_func_exit(void){}
void __tsan_vptr_update(void**p,void*){ access(p,8,true,false,PC); } void __tsan_vptr_read(void**p){ access(p,8,false,false,PC); }
#define RW(n) void __tsan_read##n(void*p){ access(p,n,false,false,PC);} void __tsan_write##n(void*p){ access(p,n,true,false,PC);} \
 void __tsan_unaligned_read##n(void*p){ access(p,n,false,false,PC);} void __tsan_unaligned_write##n(void*p){ access(p,n,true,false,PC);} \
 void __tsan_volatile_read##n(void*p){ access(p,n,false,false,PC);} void __tsan_volatile_write##n(void*p){ access(p,n,true,false,PC);} \
 void __tsan_unaligned_volatile_read##n(void*p){ access(p,n,false,false,PC);} void __tsan_unaligned_volatile_write##n(void*p){ access(p,n,true,false,PC);} \
 void __tsan_read_write##n(void*p){ access(p,n,false,false,PC); access(p,n,true,false,PC);} void __tsan_unaligned_read_write##n(void*p){ access(p,n,false,false,PC); access(p,n,true,false,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,unsigned long n){ access(p,(int)n,false,false,PC);} void __tsan_write_range(void*p,unsigned long n){ access(p,(int)n,true,false,PC);}
#define AT(bits,T) \
 T __tsan_atomic##bits##_load(const volatile T*p,int){ access((void*)p,sizeof(T),false,true,PC); shimhook_stats()->atomics++; return __atomic_load_n(p,5);} \
 void __tsan_atomic##bits##_store(volatile T*p,T v,int){ access((void*)p,sizeof(T),true,true,PC); shimhook_stats()->atomics++; __atomic_store_n(p,v,5);} \
 T __tsan_atomic##bits##_exchange(volatile T*p,T v,int){ access((void*)p,sizeof(T),true,true,PC); return __atomic_exchange_n(p,v,5);} \
 T __tsan_atomic##bits##_fetch_add(volatile T*p,T v,int){ access((void*)p,sizeof(T),true,true,PC); return __atomic_fetch_add(p,v,5);} \
 T __tsan_atomic##bits##_fetch_sub(volatile T*p,T v,int){ access((void*)p,sizeof(T),true,true,PC); return __atomic_fetch_sub(p,v,5);} \
 T __tsan_atomic##bits##_fetch_and(volatile T*p,T v,int){ access((void*)p,sizeof(T),true,true,PC); return __atomic_fetch_and(p,v,5);} \
 T __tsan_atomic##bits##_fetch_or(volatile T*p,T v,int){ access((void*)p,sizeof(T),true,true,PC); return __atomic_fetch_or(p,v,5);} \
 T __tsan_atomic##bits##_fetch_xor(volatile T*p,T v,int){ access((void*)p,sizeof(T),true,true,PC); return __atomic_fetch_xor(p,v,5);} \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T*p,T*c,T v,int,int){ access((void*)p,sizeof(T),true,true,PC); shimhook_stats()->atomics++; return __atomic_compare_exchange_n(p,c,v,0,5,5);} \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T*p,T*c,T v,int,int){ access((void*)p,sizeof(T),true,true,PC); shimhook_stats()->atomics++; return __atomic_compare_exchange_n(p,c,v,0,5,5);} \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T*p,T c,T v,int,int){ access((void*)p,sizeof(T),true,true,PC); shimhook_stats()->atomics++; __atomic_compare_exchange_n(p,&c,v,0,5,5); return c;}
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned int) AT(64,unsigned long)
// the library's objects are linked with memcpy, memmove and memset renamed to these
void*hx_memcpy(void*d,const void*s,size_t n){ if(n){ access(s,(int)n,false,false,PC); access(d,(int)n,true,false,PC); } return memcpy(d,s,n); }
void*hx_memmove(void*d,const void*s,size_t n){ if(n){ access(s,(int)n,false,false,PC); access(d,(int)n,true,false,PC); } return memmove(d,s,n); }
void*hx_memset(void*d,int c,size_t n){ if(n) access(d,(int)n,true,false,PC); return memset(d,c,n); }
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}

void*operator new(size_t n){ void*p=__wrap_malloc(n?n:1); if(!p) abort(); return p; }
void*operator new[](size_t n){ return operator new(n); }
void operator delete(void*p) noexcept { free(p); } void operator delete[](void*p) noexcept { free(p); }
void operator delete(void*p,size_t) noexcept { free(p); } void operator delete[](void*p,size_t) noexcept { free(p); }
