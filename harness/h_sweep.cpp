// P26: sweeps of the asynchronous methods are sweeps of the chaotic iteration they stand for.
// The library runs without preemption inside a chunk, the shim records the order in which chunks are executed, and the
// iteration is replayed in that order, in extended precision with running error bounds, from the stated initial guess.
#include "lib.hpp"
#include <map>
using namespace hx;
// ---------------------------------------------------------------- numbers with a bound of their rounding error
static const ld KE=2e-15L;
struct Ev { ld v=0,e=0; Ev(){} Ev(ld x,ld q=0):v(x),e(q){} };
static inline Ev operator+(const Ev&a,const Ev&b){ return Ev(a.v+b.v,a.e+b.e+KE*(fabsl(a.v)+fabsl(b.v))); }
static inline Ev operator-(const Ev&a,const Ev&b){ return Ev(a.v-b.v,a.e+b.e+KE*(fabsl(a.v)+fabsl(b.v))); }
static inline Ev operator*(const Ev&a,const Ev&b){ ld v=a.v*b.v; return Ev(v,fabsl(a.v)*b.e+fabsl(b.v)*a.e+a.e*b.e+KE*fabsl(v)); }
static inline Ev operator/(const Ev&a,const Ev&b){ if(!(fabsl(b.v)>2*b.e)) return Ev(0,INFINITY); ld v=a.v/b.v; return Ev(v,(a.e+fabsl(v)*b.e)/(fabsl(b.v)-b.e)+KE*fabsl(v)); }
typedef std::vector<Ev> EB;   // a block, row by row, or a vector
static EB bmul(const EB&a,const EB&b,int n){ EB c(n*n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ Ev s; for(int k=0;k<n;k++) s=s+a[i*n+k]*b[k*n+j]; c[i*n+j]=s; } return c; }
// c -= a b, written out because it is where the replays spend their time
__attribute__((no_sanitize("address"),no_sanitize("undefined"),optimize("O2"))) static void bsubmul_(Ev*c,const Ev*a,const Ev*b,int n){
	for(int i=0;i<n;i++) for(int j=0;j<n;j++){ ld sv=0,se=0; for(int k=0;k<n;k++){ const Ev&x=a[i*n+k],&y=b[k*n+j]; ld xv=__builtin_fabsl(x.v),yv=__builtin_fabsl(y.v),p=x.v*y.v,pv=xv*yv; se+=xv*y.e+yv*x.e+x.e*y.e+KE*(__builtin_fabsl(sv)+2*pv); sv+=p; }
		Ev&z=c[i*n+j]; z.e+=se+KE*(__builtin_fabsl(z.v)+__builtin_fabsl(sv)); z.v-=sv; } }
static void bsubmul(EB&c,const EB&a,const EB&b,int n){ bsubmul_(c.data(),a.data(),b.data(),n); }
// inverse of a block of inexact entries: exact inverse plus a bound by |X^-1| E |X^-1| and by what inversion in double precision may lose
static EB binv(const EB&a,int n){ EB c(n*n); if(n==1){ c[0]=Ev(1)/a[0]; return c; }
	LMat A=lmat(n,n),X; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ A[i][j]=a[i*n+j].v; if(!(fabsl(A[i][j])<1e100L&&a[i*n+j].e<1e100L)){ for(auto&x:c) x=Ev(0,INFINITY); return c; } }
	if(!linv(A,X)){ for(auto&x:c) x=Ev(0,INFINITY); return c; }
	ld na=0,nx=0,ne=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ na=std::max(na,fabsl(A[i][j])); nx=std::max(nx,fabsl(X[i][j])); ne=std::max(ne,a[i*n+j].e); } ld cond=na*nx*n;
	ld rel=n*n*nx*(ne+KE*10*na*(1+cond)); if(!(rel<1e-3L)){ for(auto&x:c) x=Ev(0,INFINITY); return c; }
	for(int i=0;i<n;i++) for(int j=0;j<n;j++) c[i*n+j]=Ev(X[i][j],nx*rel*2); return c; }
static bool finite(const EB&b,ld tol=1e-5L){ ld m=0,e=0; for(auto&x:b){ m=std::max(m,fabsl(x.v)); e=std::max(e,x.e); } return e<=tol*(1+m)&&m<1e30L; }
// ---------------------------------------------------------------- the record of chunks
struct Run { std::vector<ShimChunk> ch; };
static void log_on(){ if(shim_log_chunks) shim_log_chunks(1); }
static Run log_off(){ Run r; if(shim_log_chunks) shim_log_chunks(0); if(shim_get_chunks){ const ShimChunk*p; int n=shim_get_chunks(&p); r.ch.assign(p,p+n); } return r; }
struct Upd { int loop,row,pos; };
// evidence: updates that ran after one that a sequential sweep would have made later
static void disorder(const std::vector<Upd>&u,int loops){ std::vector<int> mx(loops,-1); long k=0; for(auto&x:u){ if(x.pos<mx[x.loop]) k++; mx[x.loop]=std::max(mx[x.loop],x.pos); } if(k){ count("disordered_runs"); count("out_of_order_updates",k); } }
// the updates in order; false if the record does not consist of full passes over the rows
static bool updates(const Run&r,int nb,std::vector<Upd>&u,int&loops){
	std::map<long,int> id; for(auto&c:r.ch) id[c.loop]; loops=0; for(auto&k:id) k.second=loops++; u.clear(); std::vector<std::vector<char>> seen(loops,std::vector<char>(nb,0));
	for(auto&c:r.ch){ if(c.incr!=1&&c.incr!=-1) return false; long lo=c.incr>0?c.start:c.end+1, hi=c.incr>0?c.end:c.start+1; if(hi-lo!=nb) return false;
		for(long q=c.lo;q!=c.hi;q+=c.incr){ long i=q-lo; if(i<0||i>=nb||seen[id[c.loop]][i]) return false; seen[id[c.loop]][i]=1; u.push_back({id[c.loop],(int)i,(int)((q-c.start)/c.incr)}); } }
	for(auto&s:seen) for(char x:s) if(!x) return false; return true; }
// loop indices may stand for rows in either direction, differently in the two phases (or in passes which alternate)
static std::vector<Upd> mapped(std::vector<Upd> u,int nb,int mask,int split,bool phases){ for(auto&x:u) if(mask>>(phases?(x.loop>=split):(x.loop&1))&1) x.row=nb-1-x.row; return u; }
// compare with what the replay of the recorded order gives. replay(updates, first): the first `first` passes belong to the
// first of two phases. want0 and want1 are the numbers of passes asked for.
template<class F,class C> static void judge(Case&,const Run&run,int nb,int want0,int want1,F replay,C matches,const std::string&what){
	std::vector<Upd> u; int loops; int want=want0+want1;
	if(want0==0&&want1==0){ EB z=replay(std::vector<Upd>(),0); if(!finite(z)){ count("replay_ill_conditioned"); return; } std::string why; REQUIRE(matches(z,why),"%s without any sweep does not leave the initial guess: %s",what.c_str(),why.c_str()); count("zero_sweep_checks"); return; }
	if(!updates(run,nb,u,loops)){ count("unrecognised_records"); return; } if(loops==0){ count("unrecorded_runs"); return; }
	std::string why; auto tryit=[&](int a,int mir,bool&bad)->bool{ EB z=replay(mir?mapped(u,nb,mir,a,want0&&want1):u,a); bad=!finite(z); return !bad&&matches(z,why); };
	bool bad=false; if(loops==want){ std::string first; static int last[2]; int&lm=last[want1>0]; for(int q=0;q<4;q++){ int mir=q^lm; bool b=false; if(tryit(want0,mir,b)){ lm=mir; count("replayed_runs"); count("replayed_updates",(long)u.size()); disorder(u,loops); return; } if(b) bad=true; if(first.empty()) first=why; } if(bad){ count("replay_ill_conditioned"); return; }
		FAIL("%s: %d sweeps give what no execution of that many updates of every row in the recorded order gives: %s",what.c_str(),want0?want0:want1,first.c_str()); }
	for(int a=0;a<=loops;a++){ if(want1==0&&a!=loops) continue; if(want0==0&&a!=0) continue; for(int mir=0;mir<4;mir++){ bool b=false; if(tryit(a,mir,b)) FAIL("%s: %d passes over the rows where %d were asked for",what.c_str(),loops,want); } }
	count("unrecognised_records"); }
static bool close(const EB&ref,const double*got,std::string&why){ for(size_t i=0;i<ref.size();i++){ ld e=fabsl((ld)got[i]-ref[i].v); if(!(e<=2*ref[i].e+1e-290L)){ why=fmt("component %zu is %.17g, expected %.17Lg (allowed error %.3Lg)",i,got[i],ref[i].v,2*ref[i].e); return false; } } return true; }
// ---------------------------------------------------------------- replays
struct Fact { const SM&m; EB s; std::vector<EB> A,F; // scaled matrix, factors
	Fact(const SM&q,bool scale):m(q){ int bs=m.bs; s.assign(m.n(),Ev(1)); if(scale) for(int i=0;i<m.nb;i++) for(int r=0;r<bs;r++){ ld x=1/sqrtl((ld)m.at(m.di[i],r,r)); s[i*bs+r]=Ev(x,KE*x); } A.resize(m.nnzb());
		for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++){ EB b(bs*bs); for(int r=0;r<bs;r++) for(int c=0;c<bs;c++){ b[r*bs+c]=Ev(m.at(j,r,c)); if(scale) b[r*bs+c]=b[r*bs+c]*(s[i*bs+r]*s[m.ci[j]*bs+c]); } A[j]=b; } }
	void init(FactInit f){ F=A; if(f==INIT_F_SGS) for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.di[i];j++) F[j]=bmul(A[j],binv(A[m.di[m.ci[j]]],m.bs),m.bs); if(f==INIT_F_ZERO) for(auto&b:F) for(auto&x:b) x=Ev(0); }
	std::vector<int> where;
	void update(int i){ int bs=m.bs; if(where.empty()) where.assign(m.nb,-1);
		for(int j=m.rp[i];j<m.rp[i+1];j++) where[m.ci[j]]=j;
		std::vector<EB> acc(m.rp[i+1]-m.rp[i]); for(size_t q=0;q<acc.size();q++) acc[q]=A[m.rp[i]+q];
		// in storage order: by the time an entry is formed, the entries of its row before it are the new ones
		for(int j=m.rp[i];j<m.rp[i+1];j++){ int k=m.ci[j]; EB&a=acc[j-m.rp[i]];
			if(k<i){ F[j]=bmul(a,binv(F[m.di[k]],bs),bs); for(int p=m.di[k]+1;p<m.rp[k+1];p++){ int t=where[m.ci[p]]; if(t>=0) bsubmul(acc[t-m.rp[i]],F[j],F[p],bs); } }
			else F[j]=a; }
		for(int j=m.rp[i];j<m.rp[i+1];j++) where[m.ci[j]]=-1; }
	bool ok()const{ for(auto&b:F) for(auto&x:b) if(!(x.e<=1e-5L*(1+fabsl(x.v)))||!(fabsl(x.v)<1e30L)) return false; return true; }
	void lrow(int i,const EB&r,EB&y)const{ int bs=m.bs; for(int a=0;a<bs;a++){ Ev t=s[i*bs+a]*r[i*bs+a]; for(int j=m.rp[i];j<m.di[i];j++) for(int c=0;c<bs;c++) t=t-F[j][a*bs+c]*y[m.ci[j]*bs+c]; y[i*bs+a]=t; } }
	void urow(int i,const EB&d,const EB&y,EB&z)const{ int bs=m.bs; EB t(bs); for(int a=0;a<bs;a++){ t[a]=y[i*bs+a]; for(int j=m.di[i]+1;j<m.rp[i+1];j++) for(int c=0;c<bs;c++) t[a]=t[a]-F[j][a*bs+c]*z[m.ci[j]*bs+c]; } for(int a=0;a<bs;a++){ Ev q; for(int c=0;c<bs;c++) q=q+d[a*bs+c]*t[c]; z[i*bs+a]=q; } }
	std::vector<EB> dinv()const{ std::vector<EB> d(m.nb); for(int i=0;i<m.nb;i++) d[i]=binv(F[m.di[i]],m.bs); return d; }
	EB solve(const EB&r,const std::vector<EB>&d)const{ EB y(m.n()),z(m.n()); for(int i=0;i<m.nb;i++) lrow(i,r,y); for(int i=m.nb-1;i>=0;i--) urow(i,d[i],y,z); for(int i=0;i<m.n();i++) z[i]=z[i]*s[i]; return z; } };
static EB evec(const DBuf&v){ EB e(v.n); for(size_t i=0;i<v.n;i++) e[i]=Ev(v[i]); return e; }
static SM smat(Case&c,bool posdiag,bool sym){ Rng&g=c.rng; Shape s=genshape(g); GenOpt o; o.bs=s.bs;o.rm=s.rm;o.posdiag=posdiag;o.sym=sym;o.maxb=s.bs>1?9:16;o.mix=true; if(c.big) o.big=s.bs>1?150:900; return genmat(g,o,&c); }
// no preemption inside a chunk; many threads and long delays keep the iterates far from their limit
static Sched wsched(Rng&g){ Sched s=gensched(g,16); s.quantum=0; if(g.chance(0.5)) s.pol=SHIM_LIFO; s.delay=g.range(0,6); if(g.chance(0.1)) s.T=1; else if(s.T==1) s.T=2+g.below(12); return s; }

static void fam_fact(Case&c){
	Rng&g=c.rng; bool scale=g.chance(0.5); int how=g.below(3); SM m=smat(c,scale,how==2); Set s; s.scale=scale; s.type=how==0?"ilu0":how==1?"sapilu0":"async_level_ilu0"; s.chunk=anychunk(g,g.pick<int>({1,1,1,2,3,7})); s.nb=g.pick<int>({0,1,1,2,2,3,4}); s.na=1; s.ai=(ApplyInit)g.below(2);
	s.fi=g.chance(0.5)?INIT_F_ORIGINAL:INIT_F_SGS; if(m.bs>1&&s.nb>0&&g.chance(0.05)) s.fi=INIT_F_ZERO;
	Sched sc=wsched(g); c.note(setdesc(s)+" "+sdesc(sc)); auto p=make(m,s); ro_mat(m); Run run; int rep=g.chance(0.35)?2:1; SM m0;
	for(int k=0;k<rep;k++){ if(k&&g.chance(0.7)){ static const double f[]={1,1,0.5,2,1.5}; for(size_t q=0;q<m.v.n;q++) m.v[q]*=f[g.below(5)]; count("recomputed_with_new_values"); } sc.seed=g.next(); apply_sched(sc); log_on(); p->compute(); run=log_off(); }
	note_trace(c); Sched one; apply_sched(one); int n=m.n(); std::vector<DBuf> rs,zs; for(int k=0;k<3;k++){ rs.push_back(genvec(g,n)); zs.push_back(apply(*p,rs.back())); }
	judge(c,run,m.nb,s.nb,0,[&](const std::vector<Upd>&u,int){ EB none(1,Ev(0,INFINITY)),all; Fact F(m,scale); F.init(s.fi); for(auto&x:u) F.update(x.row); if(!F.ok()) return none; auto d=F.dinv(); for(auto&b:d) if(!finite(b,1e-3L)) return none; for(int k=0;k<3;k++){ EB z=F.solve(evec(rs[k]),d); if(!finite(z)) return none; all.insert(all.end(),z.begin(),z.end()); } return all; },
		[&](const EB&z,std::string&why){ if((int)z.size()!=3*n) return false; for(int k=0;k<3;k++) if(!close(EB(z.begin()+k*n,z.begin()+(k+1)*n),zs[k].p,why)) return false; return true; },s.type+" factorisation"); }

static void fam_tri(Case&c){
	Rng&g=c.rng; bool scale=g.chance(0.5); SM m=smat(c,scale,false); Set s; s.scale=scale; s.type=g.chance(0.5)?"sfilu0":"ilu0"; s.chunk=anychunk(g,g.pick<int>({1,1,1,2,3,7})); s.nb=1; s.na=g.pick<int>({0,1,1,2,2,3,4}); s.ai=(ApplyInit)g.below(2); s.fi=INIT_F_ORIGINAL;
	Sched sc=wsched(g); c.note(setdesc(s)+" "+sdesc(sc)); auto p=make(m,s); ro_mat(m); Sched one; apply_sched(one); p->compute(); int n=m.n();
	Fact F(m,scale); F.init(s.fi); for(int i=0;i<m.nb;i++) F.update(i); if(!F.ok()){ c.trivial=true; return; } auto d=F.dinv(); for(auto&b:d) if(!finite(b,1e-3L)){ c.trivial=true; return; }
	for(int k=0;k<2;k++){ DBuf r=genvec(g,n); Sched s2=sc; s2.seed=g.next(); if(g.chance(0.3)) s2.pol=g.below(SHIM_NPOL); RoScope rs; ro_vec(r,"right-hand side"); apply_sched(s2); log_on(); DBuf z=apply(*p,r,k?1e3:0); Run run=log_off();
		judge(c,run,m.nb,s.na,s.na,[&](const std::vector<Upd>&u,int a){ EB er=evec(r),y(n),w(n); bool ph=false; auto second=[&]{ if(!ph){ ph=true; if(s.ai==INIT_A_JACOBI) w=y; } }; for(int pass=0;pass<2;pass++){ if(pass) second(); for(auto&x:u) if((x.loop>=a)==(pass==1)){ if(pass==0) F.lrow(x.row,er,y); else F.urow(x.row,d[x.row],y,w); } } for(int i=0;i<n;i++) w[i]=w[i]*F.s[i]; return w; },
			[&](const EB&q,std::string&why){ return close(q,z.p,why); },s.type+" application"); }
	note_trace(c); }

struct Diag { const SM&m; std::vector<EB> d; Diag(const SM&q):m(q){ int bs=m.bs; for(int i=0;i<m.nb;i++){ EB b(bs*bs); for(int r=0;r<bs;r++) for(int c=0;c<bs;c++) b[r*bs+c]=Ev(m.at(m.di[i],r,c)); d.push_back(binv(b,bs)); } } bool ok()const{ for(auto&b:d) if(!finite(b,1e-6L)) return false; return true; }
	// x_i := D_i^-1 (b_i - sum over the columns in [lo,hi) other than i)
	void row(int i,int lo,int hi,const EB&b,const EB&x,EB&out)const{ int bs=m.bs; EB t(bs); for(int a=0;a<bs;a++){ t[a]=b[i*bs+a]; for(int p=m.rp[i];p<m.rp[i+1];p++){ int j=m.ci[p]; if(j==i||j<lo||j>=hi) continue; for(int c=0;c<bs;c++) t[a]=t[a]-Ev(m.at(p,a,c))*x[j*bs+c]; } } for(int a=0;a<bs;a++){ Ev q; for(int c=0;c<bs;c++) q=q+d[i][a*bs+c]*t[c]; out[i*bs+a]=q; } }
	// z_i := y_i - D_i^-1 sum over j>i
	void back(int i,const EB&y,EB&z)const{ int bs=m.bs; EB t(bs); for(int a=0;a<bs;a++) for(int p=m.rp[i];p<m.rp[i+1];p++){ int j=m.ci[p]; if(j<=i) continue; for(int c=0;c<bs;c++) t[a]=t[a]+Ev(m.at(p,a,c))*z[j*bs+c]; }
		// may also be formed as D^-1 (D y - U z)
		EB dy(bs); for(int a=0;a<bs;a++) for(int c=0;c<bs;c++) dy[a]=dy[a]+Ev(m.at(m.di[i],a,c))*y[i*bs+c];
		for(int a=0;a<bs;a++){ Ev q=y[i*bs+a]; for(int c=0;c<bs;c++){ q=q-d[i][a*bs+c]*t[c]; q.e+=2*KE*fabsl(d[i][a*bs+c].v)*fabsl(dy[c].v)+fabsl(d[i][a*bs+c].v)*dy[c].e+d[i][a*bs+c].e*fabsl(dy[c].v); } z[i*bs+a]=q; } } };
static void fam_sgs(Case&c){
	Rng&g=c.rng; SM m=smat(c,false,false); Set s; s.type="sgs"; s.chunk=anychunk(g,g.pick<int>({1,1,1,2,3,7})); s.na=g.pick<int>({0,1,1,2,2,3,4}); s.ai=(ApplyInit)g.below(2); s.relax=g.chance(0.2); Sched sc=wsched(g); c.note(setdesc(s)+" "+sdesc(sc));
	Diag D(m); if(!D.ok()){ c.trivial=true; return; } auto p=make(m,s); ro_mat(m); apply_sched(sc); p->compute(); int n=m.n();
	for(int k=0;k<2;k++){ DBuf r=genvec(g,n); Sched s2=sc; s2.seed=g.next(); if(g.chance(0.3)) s2.pol=g.below(SHIM_NPOL); RoScope rs; ro_vec(r,"right-hand side"); apply_sched(s2); log_on(); DBuf z=apply(*p,r,k?1e3:0); Run run=log_off();
		judge(c,run,m.nb,s.na,s.na,[&](const std::vector<Upd>&u,int a){ EB er=evec(r),y(n),w(n); for(int pass=0;pass<2;pass++){ if(pass&&s.ai==INIT_A_JACOBI) w=y; for(auto&x:u) if((x.loop>=a)==(pass==1)){ if(pass==0) D.row(x.row,0,x.row,er,y,y); else D.back(x.row,y,w); } } return w; },
			[&](const EB&q,std::string&why){ return close(q,z.p,why); },"symmetric Gauss-Seidel application"); }
	note_trace(c); }
static void fam_relax(Case&c){
	Rng&g=c.rng; bool gs=g.chance(0.5); SM m=smat(c,false,false); Set s; s.type=gs?"gs":"sgs"; s.relax=true; s.chunk=anychunk(g,g.pick<int>({1,1,1,2,3,7})); s.na=g.range(0,4); s.ai=(ApplyInit)g.below(3); int steps=g.pick<int>({0,1,1,2,3,4}); bool via=gs&&g.chance(0.4); if(via) steps=s.na; Sched sc=wsched(g); c.note(setdesc(s)+fmt(" steps=%d%s ",steps,via?" apply":"")+sdesc(sc));
	Diag D(m); if(!D.ok()){ c.trivial=true; return; } auto p=make(m,s); ro_mat(m); apply_sched(sc); p->compute(); int n=m.n(); SolveParams<double> sp; sp.rtol=0; sp.atol=0; sp.dtol=1e30; sp.ctol=false; sp.maxits=steps; p->setApplyParams(sp);
	for(int k=0;k<2;k++){ DBuf b=genvec(g,n),x=genvec(g,n),x0=x; Sched s2=sc; s2.seed=g.next(); if(g.chance(0.3)) s2.pol=g.below(SHIM_NPOL); RoScope rs; ro_vec(b,"right-hand side"); apply_sched(s2); log_on(); if(via) p->apply(b.p,x.p); else p->apply_relax(b.p,x.p); Run run=log_off();
		judge(c,run,m.nb,gs?steps:2*steps,0,[&](const std::vector<Upd>&u,int){ EB eb=evec(b),w=evec(x0); for(auto&q:u) D.row(q.row,0,m.nb,eb,w,w); return w; },
			[&](const EB&q,std::string&why){ return close(q,x.p,why); },std::string(gs?"Gauss-Seidel":"symmetric Gauss-Seidel")+(via?" application":" relaxation")); }
	note_trace(c); }
int main(int argc,char**argv){ return run(argc,argv,{{"fact",fam_fact,600,6000},{"tri",fam_tri,600,6000},{"sgs",fam_sgs,500,5000},{"relax",fam_relax,500,5000},{"factL",large(fam_fact),30,300},{"triL",large(fam_tri),30,300},{"sgsL",large(fam_sgs),30,300},{"relaxL",large(fam_relax),30,300}}); }
