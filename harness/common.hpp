// Shared parts of all harnesses: case driver, random generators, matrices, dense reference arithmetic.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cassert>
#include <array>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include "shim.h"

#include <omp.h>

#ifndef HX_LEAKCHECK
#define HX_LEAKCHECK 1
#endif
extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));

namespace hx {

typedef long double ld;
typedef std::vector<ld> LVec;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed=1) : s(seed) {}
	uint64_t next(){ uint64_t z=(s+=0x9e3779b97f4a7c15ULL); z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
	int below(int n){ return n<=1?0:(int)(next()%(uint64_t)n); }
	int range(int a,int b){ return a+below(b-a+1); }
	bool chance(double p){ return (next()>>11)*(1.0/9007199254740992.0) < p; }
	double uni(){ return (next()>>11)*(1.0/9007199254740992.0); }
	double sym(){ return 2*uni()-1; }
	template<class T> const T& pick(const std::vector<T>&v){ return v[below((int)v.size())]; }
};
inline uint64_t hmix(uint64_t h,uint64_t v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); return h*0x100000001b3ULL; }
inline uint64_t hstr(const std::string&s){ uint64_t h=1469598103934665603ULL; for(char c:s){ h^=(unsigned char)c; h*=1099511628211ULL; } return h; }

struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
struct MemViolation : Violation { using Violation::Violation; };
#define MEMFAIL(...) throw hx::MemViolation(hx::fmt(__VA_ARGS__))
inline std::string fmt(const char*f,...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char*f,...){ char b[2048]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
#define FAIL(...) throw hx::Violation(hx::fmt(__VA_ARGS__))
#define REQUIRE(c,...) do{ if(!(c)) throw hx::Violation(hx::fmt(__VA_ARGS__)); }while(0)

// -------------------------------------------------------------- coverage and case driver
struct Cov {
	std::map<std::string,uint64_t> n; std::set<uint64_t> distinct; std::vector<std::string> samples; uint64_t evals=0, nontrivial=0;
};
inline Cov& cov(){ static Cov c; return c; }
inline void count(const std::string&k,uint64_t by=1){ cov().n[k]+=by; }

struct Case {
	Rng rng; int idx; bool thorough; std::string desc; bool trivial=false, big=false; uint64_t sig=0;
	Case(uint64_t s,int i,bool t):rng(s),idx(i),thorough(t){}
	void note(const std::string&s){ if(!desc.empty()) desc+=' '; desc+=s; }
};
struct Family { std::string name; std::function<void(Case&)> fn; int quick, thorough; };
inline std::function<void(Case&)> large(void(*f)(Case&)){ return [f](Case&c){ c.big=true; f(c); }; } // the same family on large matrices

inline int& outfd(){ static int f=-1; return f; }
inline void outline(const std::string&s){ std::string t=s+"\n"; ssize_t r=::write(outfd(),t.data(),t.size()); (void)r; }
inline std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n')o+="\\n"; else if(c<32||c>126)o+=' '; else o+=c; } return o; }
inline std::string& scratch(){ static std::string d; return d; }

inline const char*& progress_extra(){ static const char*p=""; return p; }

inline int& lastT(){ static int t=1; return t; }
inline uint64_t& icvdirty(){ static uint64_t d=0; return d; } // how often the number of threads was found changed
inline int run(int argc,char**argv,const std::vector<Family>&fams){
	std::string out="/dev/null", only, judge="all"; uint64_t seed=1; bool thorough=false; int onlycase=-1, first=0, shard=0, nshards=1; double mult=1;
	for(int i=1;i+1<argc;i+=2){ std::string a=argv[i],v=argv[i+1];
		if(a=="--out") out=v; else if(a=="--seed") seed=strtoull(v.c_str(),0,10); else if(a=="--tier") thorough=(v=="thorough");
		else if(a=="--fam") only=v; else if(a=="--case") onlycase=atoi(v.c_str()); else if(a=="--first") first=atoi(v.c_str());
		else if(a=="--shard") sscanf(v.c_str(),"%d/%d",&shard,&nshards); else if(a=="--mult") mult=atof(v.c_str()); else if(a=="--scratch") scratch()=v; else if(a=="--judge") judge=v; }
	// what counts: everything; "mem" sanitizer reports and leaks; "ro" writes to inputs; "race" data races
	bool results=judge=="all", mem=judge=="all"||judge=="mem"; if(shim_judge) shim_judge(judge=="all"?3:judge=="ro"?1:judge=="race"?2:0);
	outfd()=open(out.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644);
	if(!getenv("HX_STDOUT")){ int dn=open("/dev/null",O_WRONLY); fflush(stdout); dup2(dn,1); }
	int fails=0;
	for(auto&f:fams){
		if(!only.empty() && only!=f.name && only.find(","+f.name+",")==std::string::npos) continue;
		int cnt=(int)std::ceil((thorough?f.thorough:f.quick)*mult);
		for(int i=first;i<cnt;i++){
			if(onlycase>=0 && i!=onlycase) continue;
			if(i%nshards!=shard) continue;
			Case c(hmix(hmix(seed*7919+13,hstr(f.name)),(uint64_t)i*2654435761ULL+17),i,thorough);
			outline(fmt("{\"t\":\"begin\",\"fam\":\"%s\",\"i\":%d}",f.name.c_str(),i));
			if(shim_config) shim_config(1,SHIM_INORDER,1,0,0);
			if(shim_short) shim_short(0,1);
			if(shim_race_mode) shim_race_mode(0);
			if(shim_ro_clear) shim_ro_clear();
			if(shim_take_violations) shim_take_violations(nullptr);
			if(shim_reset_trace) shim_reset_trace();
			omp_set_num_threads(1); lastT()=1;
			std::string msg;
			try { f.fn(c); }
			catch(const MemViolation&v){ if(mem) msg=v.what(); else count("not_judged"); }
			catch(const Violation&v){ if(!results){ count("not_judged"); goto judged; } msg=v.what(); if(msg.empty()) msg="violation"; }
			catch(const std::exception&e){ if(results) msg=std::string("unexpected exception: ")+e.what(); }
			catch(...){ if(results) msg="unexpected exception"; }
judged:
			if(msg.empty() && shim_take_violations){ const char*t; int k=shim_take_violations(&t); if(k){ msg=fmt("%d monitor reports: ",k)+std::string(t).substr(0,1200); } }
			if(shim_ro_clear) shim_ro_clear();
			if(shim_race_mode) shim_race_mode(0);
			cov().evals++; cov().n["cases_"+f.name]++;
			if(getenv("HX_DESC")) outline(fmt("{\"t\":\"desc\",\"fam\":\"%s\",\"i\":%d,\"triv\":%d,\"desc\":\"",f.name.c_str(),i,(int)c.trivial)+jesc(c.desc)+"\"}"); // for studies of what the generators reach
			if(!c.trivial){ cov().nontrivial++; cov().distinct.insert(c.sig?hmix(hstr(c.desc),c.sig):hmix(hstr(c.desc),(uint64_t)i)); }
			if(cov().samples.size()<6 && (i==0||i==7)) cov().samples.push_back(f.name+"#"+std::to_string(i)+": "+c.desc);
			if(!msg.empty()){ fails++; outline(fmt("{\"t\":\"fail\",\"fam\":\"%s\",\"i\":%d,\"desc\":\"",f.name.c_str(),i)+jesc(c.desc)+"\",\"msg\":\""+jesc(msg)+"\"}");
				if(fails>=30) goto done; }
		}
	}
done:
	std::string s=fmt("{\"t\":\"summary\",\"evals\":%lu,\"nontrivial\":%lu,\"distinct\":%zu,\"fails\":%d",(unsigned long)cov().evals,(unsigned long)cov().nontrivial,cov().distinct.size(),fails);
	s+=",\"counters\":{"; bool ft=true;
	for(auto&p:cov().n){ if(!ft) s+=","; ft=false; s+="\""+jesc(p.first)+"\":"+std::to_string(p.second); }
	if(shim_stats){ ShimStats st; shim_stats(&st);
#define ST(x) s+=fmt("%s\"omp_" #x "\":%lu",ft?"":",",(unsigned long)st.x); ft=false;
		ST(regions) ST(multi_regions) ST(switches) ST(accesses) ST(region_accesses) ST(atomics) ST(workshares) ST(chunks) ST(barriers) ST(race_cells) ST(conflicts_allowed) ST(maxlead) ST(short_teams) }
	s+="},\"hashes\":\""; for(uint64_t h:cov().distinct) s+=fmt("%lx ",(unsigned long)h);
	s+="\",\"samples\":["; ft=true;
	for(auto&x:cov().samples){ if(!ft) s+=","; ft=false; s+="\""+jesc(x)+"\""; }
	s+="]}";
	outline(s);
	return 0;
}

// -------------------------------------------------------------- aligned exact-size buffers
template<class T> struct Buf {
	T*p=nullptr; size_t n=0;
	Buf(){} explicit Buf(size_t k):n(k){ void*q=nullptr; if(posix_memalign(&q,64,k?k*sizeof(T):1)) abort(); p=(T*)q; }
	Buf(size_t k,T v):Buf(k){ for(size_t i=0;i<k;i++) p[i]=v; }
	Buf(const std::vector<T>&v):Buf(v.size()){ for(size_t i=0;i<n;i++) p[i]=v[i]; }
	Buf(const Buf&o):Buf(o.n){ for(size_t i=0;i<n;i++) p[i]=o.p[i]; }
	Buf(Buf&&o){ p=o.p;n=o.n;o.p=nullptr;o.n=0; }
	Buf&operator=(Buf o){ std::swap(p,o.p); std::swap(n,o.n); return *this; }
	~Buf(){ free(p); }
	T&operator[](size_t i){ return p[i]; } const T&operator[](size_t i)const{ return p[i]; }
	size_t size()const{ return n; } T*begin(){return p;} T*end(){return p+n;} const T*begin()const{return p;} const T*end()const{return p+n;}
	bool operator==(const Buf&o)const{ return n==o.n && (n==0||memcmp(p,o.p,n*sizeof(T))==0); }
};
typedef Buf<double> DBuf; typedef Buf<int> IBuf;

// -------------------------------------------------------------- sparse matrices with known content
struct SM {
	int nb=0,bs=1; bool rm=false; IBuf rp,ci,di,re; DBuf v;
	int n()const{ return nb*bs; } int nnzb()const{ return rp[nb]; }
	int off(int r,int c)const{ return rm? r*bs+c : c*bs+r; }
	double&at(int j,int r,int c){ return v[(size_t)j*bs*bs+off(r,c)]; }
	double at(int j,int r,int c)const{ return v[(size_t)j*bs*bs+off(r,c)]; }
	void ends(){ re=IBuf(nb); for(int i=0;i<nb;i++) re[i]=rp[i+1]; }
	std::vector<std::vector<char>> pattern()const{ std::vector<std::vector<char>> p(nb,std::vector<char>(nb,0)); for(int i=0;i<nb;i++) for(int j=rp[i];j<rp[i+1];j++) p[i][ci[j]]=1; return p; }
	std::vector<std::vector<int>> posmap()const{ std::vector<std::vector<int>> p(nb,std::vector<int>(nb,-1)); for(int i=0;i<nb;i++) for(int j=rp[i];j<rp[i+1];j++) p[i][ci[j]]=j; return p; }
};
typedef std::vector<LVec> LMat;
inline LMat lmat(int n,int m){ return LMat(n,LVec(m,0)); }
inline LMat dense(const SM&a){ LMat d=lmat(a.n(),a.n()); for(int i=0;i<a.nb;i++) for(int j=a.rp[i];j<a.rp[i+1];j++) for(int r=0;r<a.bs;r++) for(int c=0;c<a.bs;c++) d[i*a.bs+r][a.ci[j]*a.bs+c]+=a.at(j,r,c); return d; }

enum PatKind { PK_RAND, PK_SYM, PK_TRI, PK_GRID, PK_ARROW, PK_ARROWR, PK_LOWER, PK_UPPER, PK_DIAG, PK_DENSE, PK_BAND, PK_NUM };
inline const char*patname(int k){ static const char*n[]={"rand","sym","tri","grid","arrow","arrowr","lower","upper","diag","dense","band"}; return n[k]; }
inline bool symkind(int k){ return k!=PK_RAND&&k!=PK_LOWER&&k!=PK_UPPER&&k!=PK_BAND; }

struct GenOpt { int minb=1,maxb=14; bool sym=false; bool posdiag=false; double maxoff=1.0; int bs=1; bool rm=false; int kind=-1; bool scale=true; bool zeros=true; double margin=-1; bool unsorted=false; int nb=-1; int bigf=6; int big=0; bool deep=false; bool mix=false; bool thin=false; bool hubs=false; }; // big: largest number of block rows of a large sparse case; deep: long dependency chains allowed; thin: no dense rows or columns; hubs: rows and columns of more than 65536 entries too

inline std::vector<std::vector<char>> genpat(Rng&g,int nb,int kind){
	std::vector<std::vector<char>> p(nb,std::vector<char>(nb,0));
	for(int i=0;i<nb;i++) p[i][i]=1;
	double dens=std::min(1.0,(1.0+g.below(4))/std::max(1,nb));
	int w=1; while((w+1)*(w+1)<=nb) w++;
	int bl=g.below(4),bu=g.below(4),skip=1+g.below(3);
	for(int i=0;i<nb;i++) for(int j=0;j<nb;j++){
		bool on=false;
		switch(kind){
		case PK_RAND: on=g.chance(dens); break;
		case PK_SYM: if(i<j && g.chance(dens)) { p[i][j]=p[j][i]=1; } break;
		case PK_TRI: on=std::abs(i-j)==1; break;
		case PK_GRID: on=(std::abs(i-j)==w)||(std::abs(i-j)==1&&i/w==j/w); break;
		case PK_ARROW: on=(i==0||j==0); break;
		case PK_ARROWR: on=(i==nb-1||j==nb-1); break;
		case PK_LOWER: on=j<i&&g.chance(std::max(dens,0.3)); break;
		case PK_UPPER: on=j>i&&g.chance(std::max(dens,0.3)); break;
		case PK_DENSE: on=true; break;
		case PK_BAND: on=(j<i&&i-j<=bl*skip&&(i-j)%skip==0)||(j>i&&j-i<=bu); break;
		}
		if(on) p[i][j]=1;
	}
	return p;
}

typedef std::vector<std::vector<int>> Pat;
inline Pat lists(const std::vector<std::vector<char>>&p){ Pat l(p.size()); for(size_t i=0;i<p.size();i++) for(size_t j=0;j<p.size();j++) if(p[i][j]) l[i].push_back((int)j); return l; }
// large patterns with short dependency chains unless deep: clusters, long strides, arrows, hub rows and columns
inline Pat bigpat(Rng&g,int nb,bool sym,bool deep,std::string&name,bool huge=false,bool hubs=false){
	std::vector<std::set<int>> p(nb); for(int i=0;i<nb;i++) p[i].insert(i);
	auto add=[&](int i,int j){ if(i<0||j<0||i>=nb||j>=nb) return; p[i].insert(j); if(sym||g.chance(0.7)) p[j].insert(i); };
	int base=g.below(huge?(deep?6:3):deep?6:4);
	if(huge&&base>=3){ name="chain"; for(int i=0;i+1<nb;i++){ p[i].insert(i+1); p[i+1].insert(i); } int k=g.below(200); while(k-->0) add(g.below(nb),g.below(nb)); base=-1; } // one long dependency chain
	if(base<0); else if(base<=1){ name="clusters"; int mx=2+g.below(5); std::vector<int> o(nb); for(int i=0;i<nb;i++) o[i]=i; if(base==1){ name="scattered"; for(int i=nb;i>1;i--) std::swap(o[i-1],o[g.below(i)]); }
		for(int b=0;b<nb;){ int k=std::min(nb-b,1+g.below(mx)); for(int x=b;x<b+k;x++) for(int y=x+1;y<b+k;y++) if(g.chance(0.7)) add(o[x],o[y]); b+=k; } }
	else if(base==2){ name="strides"; int k=1+g.below(3); for(int t=0;t<k;t++){ int st=nb/2-g.below(std::max(1,nb/3)); if(st>0) for(int i=0;i+st<nb;i++) if(g.chance(0.9)) add(i,i+st); } }
	else if(base==3){ name="arrow"; for(int i=1;i<nb;i++) if(g.chance(0.9)) add(0,i); }
	else if(base==4){ name="grid"; int w=1; while((w+1)*(w+1)<=nb) w++; if(g.chance(0.3)) w=2+g.below(5); for(int i=0;i<nb;i++){ if((i+1)%w) add(i,i+1); add(i,i+w); } }
	else { name="band"; int w=1+g.below(6); for(int i=0;i<nb;i++) for(int d=1;d<=w;d++) if(g.chance(0.6)) add(i,i+d); }
	if(!huge&&g.chance(0.3)){ name+="+lastrows"; int w=1+g.below(3); double d=g.pick<double>({0.1,0.5,1}); for(int k=nb-w;k<nb;k++) if(k>=0) for(int i=0;i<k;i++) if(g.chance(d)) add(k,i); }
	if((!huge||hubs)&&g.chance(huge?0.8:0.3)){ name+="+hub"; int h=g.below(nb); double d= huge?1:g.pick<double>({0.05,0.3,0.9}); bool col=hubs&&!sym&&g.chance(0.5); for(int i=0;i<nb;i++) if(i!=h&&g.chance(d)){ if(col) p[i].insert(h); else p[h].insert(i); if(sym) p[i].insert(h); } }
	Pat l(nb); for(int i=0;i<nb;i++) l[i].assign(p[i].begin(),p[i].end()); return l; }

// rarely, more rows than 16 bits can count and than a 32-bit product of two row numbers can hold
enum { HUGE_MIN=66000 };
inline bool hooks();
inline bool hugecase(Rng&g,int big,int bs,int idx){ bool h=g.chance(0.1); if(idx>=0) h=idx%5==2; if(idx>=0&&bs>1&&idx%13==6) return big>=700&&!hooks(); return h&&big>=1500&&bs==1&&!hooks(); }

// replaces the diagonal block of row i by one of a special form, multiplying the whole row so that the iteration matrices stay the same
inline void setdiag(Rng&g,SM&m,int i,bool posdiag){
	int n=m.bs; typedef std::vector<std::vector<long double>> Mat; Mat S(n,std::vector<long double>(n,0)); 
	auto inv=[n](Mat a,Mat&x)->bool { x.assign(n,std::vector<long double>(n,0)); for(int r=0;r<n;r++) x[r][r]=1; for(int k=0;k<n;k++){ int p=k; for(int r=k+1;r<n;r++) if(fabsl(a[r][k])>fabsl(a[p][k])) p=r; if(a[p][k]==0) return false; std::swap(a[p],a[k]); std::swap(x[p],x[k]); long double d=1/a[k][k]; for(int q=0;q<n;q++){ a[k][q]*=d; x[k][q]*=d; } for(int r=0;r<n;r++) if(r!=k){ long double f=a[r][k]; for(int q=0;q<n;q++){ a[r][q]-=f*a[k][q]; x[r][q]-=f*x[k][q]; } } } return true; };
	auto norm=[n](const Mat&a){ long double s=0; for(int r=0;r<n;r++){ long double t=0; for(int q=0;q<n;q++) t+=fabsl(a[r][q]); s=std::max(s,t);} return s; };
	Mat X; for(int tr=0;tr<20;tr++){ int k=posdiag?g.below(4):g.below(10); for(auto&r:S) std::fill(r.begin(),r.end(),0.0L); auto rv=[&]{ return (long double)(g.chance(0.5)?g.range(-3,3):g.range(-16,16)/8.0); };
		switch(k){
		case 0: for(int r=0;r<n;r++){ S[r][r]=0.5+g.below(4); for(int q=0;q<r;q++) S[r][q]=S[q][r]=rv(); } break;                                // symmetric, positive diagonal, mostly indefinite
		case 1: { Mat B=S; for(auto&r:B) for(auto&x:r) x=rv(); for(int r=0;r<n;r++) for(int q=0;q<n;q++){ S[r][q]=r==q?1:0; for(int t=0;t<n;t++) S[r][q]+=B[r][t]*B[q][t]; } } break; // symmetric positive definite
		case 2: { bool lo=g.chance(0.5); for(int r=0;r<n;r++) for(int q=0;q<n;q++) S[r][q]= r==q?0.5+g.below(4):(lo?q<r:q>r)?rv():0; } break;                // triangular
		case 3: { long double a=g.chance(0.5)?1:0.5+g.below(4); for(int r=0;r<n;r++) S[r][r]=g.chance(0.5)?a:0.25+g.below(9); } break;                       // diagonal
		case 4: for(int r=0;r<n;r++) S[r][n-1-r]=1+g.below(3); break;                                                                                 // antidiagonal
		case 5: for(int r=0;r<n;r++){ S[r][r]=1; for(int q=0;q<r;q++) S[q][r]=-(S[r][q]=rv()); } break;                                              // skew plus identity
		case 6: for(int r=0;r<n;r++){ S[r][r]=-0.5-g.below(4); for(int q=0;q<r;q++) S[r][q]=S[q][r]=rv(); } break;
		case 7: for(int r=0;r<n;r++) for(int q=0;q<n;q++) S[r][q]=rv(); for(int q=0;q<2;q++) S[0][q]=S[1][q]; break;                               // singular leading minor
		case 8: for(int r=0;r<n;r++) S[r][(r+1)%n]=g.chance(0.5)?1:-2; break;                                                                         // cyclic permutation
		default: for(int r=0;r<n;r++) for(int q=0;q<n;q++) S[r][q]=rv(); }
		if(inv(S,X)&&norm(S)*norm(X)<100){ int d=m.di[i]; Mat D=S,P=S; for(int r=0;r<n;r++) for(int q=0;q<n;q++) D[r][q]=m.at(d,r,q); if(!inv(D,X)) return;
			for(int r=0;r<n;r++) for(int q=0;q<n;q++){ P[r][q]=0; for(int t=0;t<n;t++) P[r][q]+=S[r][t]*X[t][q]; }
			for(int j=m.rp[i];j<m.rp[i+1];j++){ for(int r=0;r<n;r++) for(int q=0;q<n;q++) D[r][q]=m.at(j,r,q); for(int r=0;r<n;r++) for(int q=0;q<n;q++){ long double s=0; for(int t=0;t<n;t++) s+=P[r][t]*D[t][q]; m.at(j,r,q)= j==d?(double)S[r][q]:(double)s; } }
			return; } } }

// values: block-row diagonally dominant with the given margin; optional power-of-two row/column scaling
inline SM genmat(Rng&g,const GenOpt&o,Case*c=nullptr){
	SM m; m.bs=o.bs; m.rm=o.rm;
	m.nb = o.nb>0?o.nb : (o.bigf>1&&g.chance(0.03))? g.range(o.maxb,o.maxb*o.bigf) : (g.chance(0.12)? g.range(o.minb,std::min(o.maxb,o.minb+2)) : g.range(o.minb,o.maxb));
	int kind=o.kind; Pat p; std::string kn;
	if(o.big>0){ double lo=std::log(64.0),hi=std::log((double)std::max(65,o.big)); m.nb=o.nb>0?o.nb:(int)std::exp(lo+(hi-lo)*std::sqrt(g.uni())); bool huge=hugecase(g,o.big,o.bs,c?c->idx:-1); if(huge) m.nb=HUGE_MIN+g.below(20000); p=bigpat(g,m.nb,o.sym,o.deep&&(!huge||o.bs==1),kn,huge||o.thin,huge&&o.hubs); }
	else {
		if(kind<0){ do { kind=g.below(PK_NUM); } while(o.sym && !symkind(kind)); }
		p=lists(genpat(g,m.nb,kind)); kn=patname(kind); }
	m.rp=IBuf(m.nb+1); m.di=IBuf(m.nb,-1); std::vector<int> ci; m.rp[0]=0;
	for(int i=0;i<m.nb;i++){ std::vector<int> cs=p[i];
		if(o.unsorted) for(size_t k=cs.size();k>1;k--) std::swap(cs[k-1],cs[g.below((int)k)]);
		for(int j:cs){ if(j==i) m.di[i]=(int)ci.size(); ci.push_back(j); } m.rp[i+1]=(int)ci.size(); }
	m.ci=IBuf(ci); m.v=DBuf(ci.size()*o.bs*o.bs,0.0); m.ends();
	int vk=g.chance(0.08)?4:g.below(4); double zp = o.zeros&&g.chance(0.25)?0.3:0.0; // 4: constant stencil
	double margin = o.margin>0?o.margin: (g.chance(0.5)? 1.5+g.uni() : 1.15+0.3*g.uni());
	std::vector<double> sum(m.n(),0);
	for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int r=0;r<m.bs;r++) for(int q=0;q<m.bs;q++){
		if(m.ci[j]==i&&r==q) continue;
		double x; switch(vk){ case 4: x= m.ci[j]!=i&&r==q?-1:0; break; case 0: x=g.sym(); break; case 1: x=-g.uni()-0.1; break; case 2: x=(double)g.range(-3,3); break; default: x=(g.chance(0.5)?1:-1)*(0.2+g.uni()); }
		if(g.chance(zp)) x=0;
		m.at(j,r,q)=x; sum[i*m.bs+r]+=std::fabs(x); }
	bool sy=false;
	if(g.chance(0.08)){ std::vector<std::map<int,int>> pos(m.nb); sy=true; for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) pos[i][m.ci[j]]=j; // symmetric values where the pattern is symmetric
		for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++){ int k=m.ci[j]; if(k>i||!pos[k].count(i)) continue; for(int r=0;r<m.bs;r++) for(int q=0;q<m.bs;q++) if(k<i||q<r) m.at(j,r,q)=m.at(pos[k][i],q,r); }
		std::fill(sum.begin(),sum.end(),0.0); for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int r=0;r<m.bs;r++) for(int q=0;q<m.bs;q++) if(!(m.ci[j]==i&&r==q)) sum[i*m.bs+r]+=std::fabs(m.at(j,r,q)); }
	for(int i=0;i<m.nb;i++) for(int r=0;r<m.bs;r++){ double d=margin*sum[i*m.bs+r]+ (vk==2?1.0:0.5+g.uni()); if(vk==2) d=std::ceil(d); if(!o.posdiag&&g.chance(0.35)) d=-d; m.at(m.di[i],r,r)=d; }
	bool mx=false;
	if(o.mix&&m.bs>1&&g.chance(0.4)){ mx=true; double q=g.pick<double>({0.2,0.7,1.0}); int mk=o.posdiag?3+g.below(2):g.below(5); // multiply block rows by nonsingular blocks: pivots off the diagonal, ill-conditioned blocks, blocks of special form
		for(int i=0;i<m.nb;i++) if(g.chance(q)){ if(mk>=3){ setdiag(g,m,i,o.posdiag); continue; }
			auto rows=[&](int a,int b,double al,bool swap){ for(int j=m.rp[i];j<m.rp[i+1];j++) for(int d=0;d<m.bs;d++){ double&x=m.at(j,a,d),&y=m.at(j,b,d); if(swap) std::swap(x,y); else y+=al*x; } };
			for(int t=0;t<m.bs;t++){ int a=g.below(m.bs),b=g.below(m.bs); if(a!=b) rows(a,b,0,true); }
			if(mk) for(int t=0;t<m.bs;t++){ int a=g.below(m.bs),b=(a+1+g.below(m.bs-1))%m.bs; rows(a,b,mk==1?(double)g.range(-2,2):std::ldexp(g.sym(),g.range(0,4)),false); } } }
	bool sc=false;
	if(o.scale&&g.chance(0.3)){ sc=true; std::vector<int> a(m.n()),b(m.n()); for(int i=0;i<m.n();i++){ a[i]=g.range(-6,6); b[i]=g.range(-2,2); }
		for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int r=0;r<m.bs;r++) for(int q=0;q<m.bs;q++) m.at(j,r,q)=std::ldexp(m.at(j,r,q),a[i*m.bs+r]+b[m.ci[j]*m.bs+q]); }
	int gm=0; if(o.scale&&g.chance(0.2)){ gm=(g.chance(0.6)?-1:1)*g.range(8,34); for(double&x:m.v) x=std::ldexp(x,gm); } // overall magnitude 1e-10 .. 1e10
	if(c){ c->note(fmt("nb=%d bs=%d%s pat=%s nnzb=%d vk=%d%s%s%s%s%s",m.nb,m.bs,m.bs>1?(m.rm?"R":"C"):"",kn.c_str(),m.nnzb(),vk,zp>0?" zeros":"",sy?" symmetric":"",mx?" mixed":"",sc?" scaled":"",gm?fmt(" mag=2^%d",gm).c_str():""));
		uint64_t h=1; for(int x:m.ci) h=hmix(h,x); for(double x:m.v){ uint64_t u; memcpy(&u,&x,8); h=hmix(h,u);} c->sig=hmix(c->sig,h); }
	return m;
}
inline DBuf genvec(Rng&g,int n){ DBuf x(n); int k=g.below(4); for(int i=0;i<n;i++) x[i]= k==0? g.sym() : k==1? (double)g.range(-4,4) : k==2 ? (i==g.below(n)?1.0:g.sym()*1e-3) : std::ldexp(g.sym(),g.range(-8,8)); return x; }
inline LVec tol_l(const DBuf&b){ return LVec(b.begin(),b.end()); }

// -------------------------------------------------------------- dense long double algebra
inline LVec lmul(const LMat&a,const LVec&x){ LVec y(a.size(),0); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<x.size();j++) y[i]+=a[i][j]*x[j]; return y; }
inline LVec absmul(const LMat&a,const LVec&x){ LVec y(a.size(),0); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<x.size();j++) y[i]+=fabsl(a[i][j]*x[j]); return y; }
inline LMat lmm(const LMat&a,const LMat&b){ size_t n=a.size(),m=b[0].size(),k=b.size(); LMat c(n,LVec(m,0)); for(size_t i=0;i<n;i++) for(size_t q=0;q<k;q++) if(a[i][q]!=0) for(size_t j=0;j<m;j++) c[i][j]+=a[i][q]*b[q][j]; return c; }
inline bool linv(const LMat&a,LMat&inv){ int n=(int)a.size(); LMat w=a; inv=lmat(n,n); for(int i=0;i<n;i++) inv[i][i]=1;
	for(int k=0;k<n;k++){ int p=k; for(int i=k+1;i<n;i++) if(fabsl(w[i][k])>fabsl(w[p][k])) p=i; if(w[p][k]==0) return false; std::swap(w[p],w[k]); std::swap(inv[p],inv[k]); ld d=w[k][k]; for(int j=0;j<n;j++){ w[k][j]/=d; inv[k][j]/=d; }
		for(int i=0;i<n;i++) if(i!=k&&w[i][k]!=0){ ld f=w[i][k]; for(int j=0;j<n;j++){ w[i][j]-=f*w[k][j]; inv[i][j]-=f*inv[k][j]; } } }
	return true; }
inline LVec lsolve(const LMat&a,const LVec&b){ LMat w=a; LVec x=b; int n=(int)a.size(); for(int k=0;k<n;k++){ int p=k; for(int i=k+1;i<n;i++) if(fabsl(w[i][k])>fabsl(w[p][k])) p=i; std::swap(w[p],w[k]); std::swap(x[p],x[k]); for(int i=k+1;i<n;i++){ ld f=w[i][k]/w[k][k]; if(f==0) continue; for(int j=k;j<n;j++) w[i][j]-=f*w[k][j]; x[i]-=f*x[k]; } }
	for(int k=n-1;k>=0;k--){ for(int j=k+1;j<n;j++) x[k]-=w[k][j]*x[j]; x[k]/=w[k][k]; } return x; }
inline LMat blk(const LMat&a,int bs,int i,int j){ LMat b=lmat(bs,bs); for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) b[r][c]=a[i*bs+r][j*bs+c]; return b; }

inline LVec smul(const SM&m,const LVec&x,LVec*mag=nullptr){ LVec y(m.n(),0); if(mag) mag->assign(m.n(),0); for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int r=0;r<m.bs;r++) for(int c=0;c<m.bs;c++){ ld t=m.at(j,r,c)*x[m.ci[j]*m.bs+c]; y[i*m.bs+r]+=t; if(mag) (*mag)[i*m.bs+r]+=fabsl(t); } return y; }
inline LMat sblk(const SM&m,int j){ LMat b=lmat(m.bs,m.bs); if(j>=0) for(int r=0;r<m.bs;r++) for(int c=0;c<m.bs;c++) b[r][c]=m.at(j,r,c); return b; }
// magnitude of the rounding error of an inverse computed by any backward-stable method, entry by entry
inline LMat invbound(const LMat&d,const LMat&inv){ int n=(int)d.size(); LMat a=d,b=inv; if(n==1){ b[0][0]=fabsl(inv[0][0]); return b; } for(auto&r:a) for(auto&x:r) x=fabsl(x); for(auto&r:b) for(auto&x:r) x=fabsl(x); LMat k=lmm(lmm(b,a),b); ld mx=0; for(auto&r:k) for(ld x:r) mx=std::max(mx,x); for(auto&r:k) for(auto&x:r) x+=1e-2L*mx; return k; }
// -------------------------------------------------------------- reference incomplete LU and triangular solves
struct IluRef { int nb,bs; LVec s; SM m; std::vector<ld> B,E; /* E: first-order bound of the rounding error of the factors, in units of the precision */ LMat L,U; std::vector<LMat> dinv,kb; std::vector<std::vector<char>> pat; int depth; ld growth; bool ok;
	const ld*b(int j)const{ return &B[(size_t)j*bs*bs]; } ld mag(int j,int q)const{ size_t k=(size_t)j*bs*bs+q; return fabsl(B[k])+1e-4L*E[k]; } };
// exact zero-fill block ILU of S A S on the block pattern, row by row; S=1/sqrt(diag) if scale. Rows must be sorted.
// dense copies of the factors (L, U, pat) only for small matrices.
inline IluRef iluref(const SM&m,bool scale){
	IluRef R; int nb=m.nb,bs=m.bs,n=m.n(),b2=bs*bs; R.nb=nb;R.bs=bs; R.ok=true; R.m=m; R.s=LVec(n,1);
	if(scale) for(int i=0;i<nb;i++) for(int r=0;r<bs;r++) R.s[i*bs+r]=1/sqrtl((ld)m.at(m.di[i],r,r));
	int nz=m.nnzb(); R.B.assign((size_t)nz*b2,0); ld mA=0;
	for(int i=0;i<nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int r=0;r<bs;r++) for(int c=0;c<bs;c++){ ld x=m.at(j,r,c)*R.s[i*bs+r]*R.s[m.ci[j]*bs+c]; R.B[(size_t)j*b2+r*bs+c]=x; mA=std::max(mA,fabsl(x)); }
	R.E=R.B; for(auto&x:R.E) x=fabsl(x); std::vector<ld> te(b2);
	R.dinv.assign(nb,lmat(bs,bs)); R.kb=R.dinv; std::vector<LMat> ke(nb); std::vector<int> dep(nz,0),where(nb,-1); R.depth=0; R.growth=1; std::vector<ld> t(b2);
	for(int i=0;i<nb;i++){
		ld da=0; for(int q=0;q<b2;q++) da=std::max(da,fabsl(R.B[(size_t)m.di[i]*b2+q]));
		for(int j=m.rp[i];j<m.rp[i+1];j++){ where[m.ci[j]]=j; if(j>m.rp[i]&&m.ci[j]<=m.ci[j-1]) throw std::runtime_error("harness: iluref needs sorted rows"); }
		for(int jk=m.rp[i];jk<m.rp[i+1]&&m.ci[jk]<i;jk++){ int k=m.ci[jk]; ld*X=&R.B[(size_t)jk*b2],*EX=&R.E[(size_t)jk*b2];
			for(int r=0;r<bs;r++) for(int c=0;c<bs;c++){ ld a=0,e=0; for(int q=0;q<bs;q++){ a+=X[r*bs+q]*R.dinv[k][q][c]; e+=EX[r*bs+q]*fabsl(R.dinv[k][q][c])+fabsl(X[r*bs+q])*ke[k][q][c]; } t[r*bs+c]=a; te[r*bs+c]=e; }
			for(int q=0;q<b2;q++){ X[q]=t[q]; EX[q]=te[q]; }
			dep[jk]=std::max(dep[jk],dep[m.di[k]]+1);
			for(int kj=m.di[k]+1;kj<m.rp[k+1];kj++){ int p=where[m.ci[kj]]; if(p<0) continue; ld*Y=&R.B[(size_t)p*b2],*EY=&R.E[(size_t)p*b2]; const ld*U=R.b(kj),*EU=&R.E[(size_t)kj*b2]; for(int r=0;r<bs;r++) for(int q=0;q<bs;q++) for(int c=0;c<bs;c++){ Y[r*bs+c]-=X[r*bs+q]*U[q*bs+c]; EY[r*bs+c]+=fabsl(X[r*bs+q])*EU[q*bs+c]+EX[r*bs+q]*fabsl(U[q*bs+c]); } dep[p]=std::max(dep[p],std::max(dep[jk],dep[kj])+1); } }
		LMat D=lmat(bs,bs); for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) D[r][c]=R.b(m.di[i])[r*bs+c];
		if(!linv(D,R.dinv[i])) R.ok=false; R.kb[i]=invbound(D,R.dinv[i]);
		LMat ED=lmat(bs,bs),ai=R.dinv[i]; for(int r=0;r<bs;r++) for(int c=0;c<bs;c++){ ED[r][c]=R.E[(size_t)m.di[i]*b2+r*bs+c]; ai[r][c]=fabsl(ai[r][c]); } ke[i]=lmm(lmm(ai,ED),ai); for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) R.kb[i][r][c]+=1e-4L*ke[i][r][c];
		for(auto&r:R.dinv[i]) for(ld x:r) R.growth=std::max(R.growth,fabsl(x)*da);
		for(int j=m.rp[i];j<m.rp[i+1];j++){ where[m.ci[j]]=-1; R.depth=std::max(R.depth,dep[j]); for(int q=0;q<b2;q++) if(!(fabsl(R.b(j)[q])<1e12*std::max((ld)1,mA))) R.ok=false; }
	}
	if(n<=160){ R.pat=m.pattern(); R.L=lmat(n,n); R.U=lmat(n,n); for(int i=0;i<n;i++) R.L[i][i]=1; for(int i=0;i<nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) (m.ci[j]<i?R.L:R.U)[i*bs+r][m.ci[j]*bs+c]=R.b(j)[r*bs+c]; }
	return R;
}
// z = S U^-1 L^-1 S r and a componentwise magnitude bound zb of the computation
inline LVec iluapply(const IluRef&R,const LVec&r,LVec&zb){
	int nb=R.nb,bs=R.bs,n=nb*bs; const SM&m=R.m; LVec y(n),yb(n),z(n); zb.assign(n,0);
	for(int i=0;i<n;i++){ y[i]=R.s[i]*r[i]; yb[i]=fabsl(y[i]); }
	for(int i=0;i<nb;i++) for(int j=m.rp[i];j<m.rp[i+1]&&m.ci[j]<i;j++){ const ld*B=R.b(j); int J=m.ci[j]; for(int a=0;a<bs;a++) for(int c=0;c<bs;c++){ y[i*bs+a]-=B[a*bs+c]*y[J*bs+c]; yb[i*bs+a]+=R.mag(j,a*bs+c)*yb[J*bs+c]; } }
	for(int i=nb-1;i>=0;i--){ LVec t(bs),tb(bs); for(int a=0;a<bs;a++){ t[a]=y[i*bs+a]; tb[a]=yb[i*bs+a]; }
		for(int j=m.di[i]+1;j<m.rp[i+1];j++){ const ld*B=R.b(j); int J=m.ci[j]; for(int a=0;a<bs;a++) for(int c=0;c<bs;c++){ t[a]-=B[a*bs+c]*z[J*bs+c]; tb[a]+=R.mag(j,a*bs+c)*zb[J*bs+c]; } }
		for(int a=0;a<bs;a++){ ld s=0,sb=0; for(int c=0;c<bs;c++){ s+=R.dinv[i][a][c]*t[c]; sb+=R.kb[i][a][c]*tb[c]; } z[i*bs+a]=s; zb[i*bs+a]=sb; } }
	for(int i=0;i<n;i++){ z[i]*=R.s[i]; zb[i]*=R.s[i]; }
	return z;
}
inline void cmpvec(const double*got,const LVec&ref,const LVec&bound,double tol,const std::string&what){
	for(size_t i=0;i<ref.size();i++){ if(bound[i]!=bound[i]) { count("components_without_bound"); continue; } ld e=fabsl((ld)got[i]-ref[i]); if(!(e<=tol*bound[i]+1e-290L)) FAIL("%s: component %zu is %.17g, expected %.17Lg (allowed error %.3Lg)",what.c_str(),i,got[i],ref[i],(ld)(tol*bound[i])); }
}
inline void depthLU(const SM&m,int&dl,int&du){ // dependency depth of forward and backward triangular sweeps
	std::vector<int> f(m.nb,0),b(m.nb,0); dl=du=0;
	for(int i=0;i<m.nb;i++) { for(int j=m.rp[i];j<m.rp[i+1];j++) if(m.ci[j]<i) f[i]=std::max(f[i],f[m.ci[j]]+1); dl=std::max(dl,f[i]); }
	for(int i=m.nb-1;i>=0;i--) { for(int j=m.rp[i];j<m.rp[i+1];j++) if(m.ci[j]>i) b[i]=std::max(b[i],b[m.ci[j]]+1); du=std::max(du,b[i]); }
}

// -------------------------------------------------------------- schedules
struct Sched { int T=1,pol=0,delay=0,quantum=0; uint64_t seed=1; bool shrt=false; };
inline Sched gensched(Rng&g,int maxT=8,int maxdelay=2){
	Sched s; static const int ts[]={1,2,3,4,5,6,7,8,12,16}; do s.T=ts[g.below(10)]; while(s.T>maxT); if(maxT>=8&&g.chance(0.04)) s.T= g.chance(0.25)? g.range(60,140) : g.range(17,48); s.pol=g.below(SHIM_NPOL); s.delay=g.range(0,maxdelay);
	static const int qs[]={1,2,5,17,60,300}; s.quantum=qs[g.below(6)]; s.seed=g.next(); s.shrt=g.chance(0.15); return s; }
// Sweeps after which the last write of every unknown is exact, for dependency depth d (levels 0..d) when a thread may
// be D work-shares ahead of the slowest. A read in sweep k (from 0) sees a write of sweep >= k-2D-1: sweeps up to
// k-D-1 have landed, and the last of them to land may be up to D older than the newest. So level 1 is exact from sweep
// D+1, each further level 2D+1 sweeps later, and the write that lands last may be D sweeps older than the last sweep.
inline int sweeps(int d,const Sched&s){ return 1+d*(2*s.delay+1); }
// error reduction exponent after S chaotic sweeps, by the same argument
inline int contractions(int S,const Sched&s){ return S<=0?0: 1+std::max(0,S-s.delay-1)/(2*s.delay+1); }
inline void apply_sched(const Sched&s){ if(omp_get_max_threads()!=lastT()) icvdirty()++; lastT()=s.T; omp_set_num_threads(s.T); if(shim_config) shim_config(s.T,s.pol,s.seed,s.delay,s.quantum); if(shim_short) shim_short(s.shrt,s.seed); }
inline std::string sdesc(const Sched&s){ static const char*p[]={"inorder","random","starve","reverse","pct","lifo"}; return fmt("T=%d%s %s D=%d q=%d",s.T,s.shrt?"(at most)":"",p[s.pol],s.delay,s.quantum); }
inline void note_trace(Case&c){ if(shim_stats){ ShimStats s; shim_stats(&s); c.sig=hmix(c.sig,s.trace_hash); } }
struct RoScope { int k; RoScope():k(shim_ro_mark?shim_ro_mark():0){} ~RoScope(){ if(shim_ro_reset) shim_ro_reset(k); } };
inline bool hooks(){ return shim_has_hooks && shim_has_hooks(); }
}
#endif
