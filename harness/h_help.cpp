// P24 helper algorithms
#include "lib.hpp"
#include "helper_algorithms.hpp"
#include "blas/blas1.hpp"
#include "utils/prefix_sum.hpp"
using namespace hx;
static int genlen(Rng&g){ if(g.chance(0.05)) return g.range(200,g.chance(0.3)?(g.chance(0.2)?150000:20000):3000); switch(g.below(4)){ case 0: return g.below(4); case 1: return g.below(20); case 2: return g.below(140); default: return (1<<g.below(8))+g.range(-1,1); } }
static void fam_psum(Case&c){
	Rng&g=c.rng; int n=genlen(g); Sched s=gensched(g,16); if(g.chance(0.3)) s.T=g.range(1,32); apply_sched(s); c.note(fmt("prefix n=%d ",n)+sdesc(s)); int k=g.below(3);
	IBuf a(n); for(int i=0;i<n;i++) a[i]= k==0?1: k==1? g.range(0,9) : g.range(-1000,1000); IBuf b=a; for(int x:a) c.sig=hmix(c.sig,x); if(shim_race_mode) shim_race_mode(1);
	prefix_sum(b.p,n); int run=0; for(int i=0;i<n;i++){ REQUIRE(b[i]==run,"exclusive prefix sum of %d entries with %d threads: entry %d is %d, expected %d",n,s.T,i,b[i],run); run+=a[i]; } count("prefix_sums"); if(n<s.T) count("shorter_than_threads");
	note_trace(c);
}
static void fam_scan(Case&c){
	Rng&g=c.rng; int n=genlen(g); std::vector<int> v(n); for(auto&x:v){ x=g.range(-50,50); c.sig=hmix(c.sig,x); } c.note(fmt("scan n=%d",n)); std::vector<int> e(n); int r=0; for(int i=0;i<n;i++) e[i]=r+=v[i];
	std::vector<int> w=internal::inclusive_scan(static_cast<const std::vector<int>&>(v)); REQUIRE(w==e,"inclusive scan (copy) of %d entries",n); std::vector<int> u=v; internal::inclusive_scan(u); REQUIRE(u==e,"inclusive scan of %d entries",n);
	device_vector<int> d(v.begin(),v.end()); internal::inclusive_scan(d); for(int i=0;i<n;i++) REQUIRE(d[i]==e[i],"inclusive scan of an aligned vector of %d entries, entry %d",n,i); count("scans",3);
	// inner search
	IBuf a(n+2); std::vector<int> all(3*n+6); for(size_t i=0;i<all.size();i++) all[i]=(int)i; for(size_t i=all.size();i>1;i--) std::swap(all[i-1],all[g.below((int)i)]); for(int i=0;i<n+2;i++) a[i]=all[i]; if(g.chance(0.5)) std::sort(a.begin(),a.end());
	for(int t=0;t<6;t++){ int s=g.below(n+2),f=s+g.below(n+3-s); int key= g.chance(0.7)? a[g.below(n+2)] : all[g.below((int)all.size())]; int ex=-7; for(int i=s;i<f;i++) if(a[i]==key){ ex=i; break; } int pos=-7; internal::inner_search<int>(a.p,s,f,key,&pos); REQUIRE(pos==ex,"inner search in [%d,%d) of %d: position %d, expected %d",s,f,n+2,pos,ex); count("searches"); }
}
template<int bs> static void srt(Case&c){
	Rng&g=c.rng; int n=g.chance(0.2)?g.below(3):g.chance(0.06)?g.range(40,g.chance(0.1)?3000:500):g.below(40); IBuf ci(n); DBuf v((size_t)n*bs*bs); std::vector<int> all(2*n+3); for(size_t i=0;i<all.size();i++) all[i]=(int)i; for(size_t i=all.size();i>1;i--) std::swap(all[i-1],all[g.below((int)i)]);
	for(int i=0;i<n;i++){ ci[i]=all[i]; for(int k=0;k<bs*bs;k++) v[(size_t)i*bs*bs+k]=ci[i]*100.0+k; c.sig=hmix(c.sig,ci[i]); } if(g.chance(0.1)) { std::vector<int> t(ci.begin(),ci.end()); std::sort(t.begin(),t.end()); for(int i=0;i<n;i++){ ci[i]=t[i]; for(int k=0;k<bs*bs;k++) v[(size_t)i*bs*bs+k]=ci[i]*100.0+k; } }
	c.note(fmt("sort n=%d bs=%d",n,bs)); std::vector<int> e(ci.begin(),ci.end()); std::sort(e.begin(),e.end());
	internal::sortBlockInnerDimension<double,int,bs>(n,ci.p,v.p);
	for(int i=0;i<n;i++){ REQUIRE(ci[i]==e[i],"sorted index %d of %d is %d, expected %d",i,n,ci[i],e[i]); for(int k=0;k<bs*bs;k++) REQUIRE(v[(size_t)i*bs*bs+k]==e[i]*100.0+k,"block %d of %d does not belong to its index (bs %d)",i,n,bs); } count("sorts");
}
static void fam_sort(Case&c){ switch(c.rng.below(5)){ case 0: srt<1>(c); break; case 1: srt<2>(c); break; case 2: srt<4>(c); break; case 3: srt<5>(c); break; default: srt<7>(c); } }
static void fam_norm(Case&c){
	Rng&g=c.rng; int n=g.chance(0.1)?0:genlen(g); Sched s=gensched(g,16); apply_sched(s); c.note(fmt("maxnorm n=%d ",n)+sdesc(s)); device_vector<double> v(n); int k=g.below(4); double e=0; for(int i=0;i<n;i++){ v[i]= k==0?0: k==1? -g.uni() : k==2? std::ldexp(g.sym(),g.range(-300,300)) : g.sym(); uint64_t u; memcpy(&u,&v[i],8); c.sig=hmix(c.sig,u); e=std::max(e,std::fabs(v[i])); }
	if(shim_race_mode) shim_race_mode(1); double r=maxnorm(v); REQUIRE(r==e,"maximum norm of %d entries is %.17g, expected %.17g",n,r,e); count("norms"); note_trace(c);
}
int main(int argc,char**argv){ return run(argc,argv,{{"psum",fam_psum,1500,15000},{"scan",fam_scan,800,6000},{"sort",fam_sort,800,6000},{"norm",fam_norm,800,6000}}); }
