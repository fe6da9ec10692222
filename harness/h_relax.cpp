// P11 Jacobi, P12 Gauss-Seidel application, P13 relaxations, P14 level scheduling
#include "lib.hpp"
#include "levelschedule.hpp"
using namespace hx;

struct Split { int nb,bs; SM m; std::vector<LMat> dinv,kb; bool ok; };
static Split split(const SM&m){ Split S; S.nb=m.nb;S.bs=m.bs; S.m=m; S.ok=true; S.dinv.resize(m.nb); S.kb.resize(m.nb);
	for(int i=0;i<m.nb;i++){ LMat d=sblk(m,m.di[i]); if(!linv(d,S.dinv[i])) S.ok=false; S.kb[i]=invbound(d,S.dinv[i]); } return S; }
static SM rmat(Case&c,bool sym,int maxn,bool scale=true,bool deep=false){ Rng&g=c.rng; Shape s=genshape(g); GenOpt o; o.bs=s.bs;o.rm=s.rm;o.sym=sym;o.maxb=s.bs>1?std::min(maxn,10):maxn;o.scale=scale; o.mix=true; if(c.big){ o.big=s.bs>1?800:3000; o.deep=deep; } return genmat(g,o,&c); }
// x_i := D_i^-1 (b_i - sum_{j!=i} A_ij x_j), and the magnitude of everything that entered
static void relaxrow(const Split&S,int i,const LVec&b,const LVec&x,const LVec&xb,LVec&out,LVec&outb){
	int bs=S.bs; LVec t(bs),tb(bs); for(int a=0;a<bs;a++){ t[a]=b[i*bs+a]; tb[a]=fabsl(t[a]); }
	const SM&m=S.m; for(int p=m.rp[i];p<m.rp[i+1];p++){ int j=m.ci[p]; if(j!=i) for(int a=0;a<bs;a++) for(int c=0;c<bs;c++){ t[a]-=m.at(p,a,c)*x[j*bs+c]; tb[a]+=fabsl((ld)m.at(p,a,c))*xb[j*bs+c]; } }
	for(int a=0;a<bs;a++){ ld s=0,sb=0; for(int c=0;c<bs;c++){ s+=S.dinv[i][a][c]*t[c]; sb+=S.kb[i][a][c]*tb[c]; } out[i*bs+a]=s; outb[i*bs+a]=sb; } }
static LVec sgsref(const Split&S,const LVec&r,LVec&zb){ // ((D+L)D^-1(D+U))^-1 r
	int bs=S.bs,n=S.nb*bs; const SM&m=S.m; LVec y(n),yb(n),z(n); zb.assign(n,0);
	for(int i=0;i<S.nb;i++){ LVec t(bs),tb(bs); for(int a=0;a<bs;a++){ t[a]=r[i*bs+a]; tb[a]=fabsl(t[a]); }
		for(int p=m.rp[i];p<m.rp[i+1];p++){ int j=m.ci[p]; if(j<i) for(int a=0;a<bs;a++) for(int c=0;c<bs;c++){ t[a]-=m.at(p,a,c)*y[j*bs+c]; tb[a]+=fabsl((ld)m.at(p,a,c))*yb[j*bs+c]; } }
		for(int a=0;a<bs;a++){ ld s=0,sb=0; for(int c=0;c<bs;c++){ s+=S.dinv[i][a][c]*t[c]; sb+=S.kb[i][a][c]*tb[c]; } y[i*bs+a]=s; yb[i*bs+a]=sb; } }
	for(int i=S.nb-1;i>=0;i--){ LVec t(bs,0),tb(bs,0);
		for(int p=m.rp[i];p<m.rp[i+1];p++){ int j=m.ci[p]; if(j>i) for(int a=0;a<bs;a++) for(int c=0;c<bs;c++){ t[a]+=m.at(p,a,c)*z[j*bs+c]; tb[a]+=fabsl((ld)m.at(p,a,c))*zb[j*bs+c]; } }
		// the operator may be formed as y - D^-1 U z or D^-1 (D y - U z)
		LVec dy(bs,0); for(int a=0;a<bs;a++) for(int c=0;c<bs;c++) dy[a]+=fabsl((ld)m.at(m.di[i],a,c))*yb[i*bs+c];
		for(int a=0;a<bs;a++){ ld s=y[i*bs+a],sb=yb[i*bs+a]; for(int c=0;c<bs;c++){ s-=S.dinv[i][a][c]*t[c]; sb+=S.kb[i][a][c]*(tb[c]+dy[c]); } z[i*bs+a]=s; zb[i*bs+a]=sb; } }
	return z; }
static LVec bgsref(const Split&S,const LVec&r,LVec&zb){ int n=S.nb; const SM&m=S.m; LVec z(n); zb.assign(n,0); // (D+U)^-1 r, scalar
	for(int i=n-1;i>=0;i--){ ld t=r[i],tb=fabsl(t); for(int p=m.rp[i];p<m.rp[i+1];p++){ int j=m.ci[p]; if(j>i){ t-=m.v[p]*z[j]; tb+=fabsl((ld)m.v[p])*zb[j]; } } z[i]=S.dinv[i][0][0]*t; zb[i]=fabsl(S.dinv[i][0][0])*tb; } return z; }

static void fam_jacobi(Case&c){ // P11
	Rng&g=c.rng; SM m=rmat(c,false,40,true,true); Split S=split(m); if(!S.ok){ c.trivial=true; return; }
	Set s; s.type="jacobi"; s.relax=g.chance(0.3); s.chunk=anychunk(g,g.range(1,5)); Sched sc=gensched(g,16); c.note(setdesc(s)); c.note(sdesc(sc));
	auto p=make(m,s); apply_sched(sc); ro_mat(m); if(shim_race_mode) shim_race_mode(1); p->compute(); if(g.chance(0.3)) p->compute();
	REQUIRE(p->dim()==m.n(),"dim() is %d, expected %d",p->dim(),m.n());
	for(int k=0;k<3;k++){ DBuf r=genvec(g,m.n()); RoScope rs; ro_vec(r,"right-hand side"); Sched s2=gensched(g,16); apply_sched(s2);
		DBuf z=apply(*p,r,k?NAN:0); int bs=m.bs; LVec ref(m.n(),0),b(m.n(),0);
		for(int i=0;i<m.nb;i++) for(int a=0;a<bs;a++) for(int q=0;q<bs;q++){ ref[i*bs+a]+=S.dinv[i][a][q]*r[i*bs+q]; b[i*bs+a]+=S.kb[i][a][q]*fabsl(r[i*bs+q]); }
		cmpvec(z.p,ref,b,1e-12,"Jacobi application"); count("operator_applications"); }
	note_trace(c);
}
static void fam_sgs(Case&c){ // P12
	Rng&g=c.rng; SM m=rmat(c,false,hooks()?14:20); Split S=split(m); if(!S.ok){ c.trivial=true; return; }
	bool csc=m.bs==1&&g.chance(0.3); Set s; s.type=csc?"cscbgs":"sgs"; s.chunk=anychunk(g,g.pick<int>({1,1,2,3,8})); s.relax=g.chance(0.2);
	Sched sc=gensched(g,8); if(csc||g.chance(0.25)) sc.T=1; int dl,du; depthLU(m,dl,du);
	s.ai=(ApplyInit)g.below(3); s.na= sc.T==1? g.pick<int>({1,1,2,5}) : sweeps(std::max(dl,du),sc)+g.below(2);
	c.note(setdesc(s)); c.note(sdesc(sc));
	auto p=make(m,s); ro_mat(m); apply_sched(sc); int rep=g.chance(0.3)?2:1; for(int k=0;k<rep;k++) p->compute();
	REQUIRE(p->dim()==m.n(),"dim() is %d, expected %d",p->dim(),m.n());
	for(int k=0;k<3;k++){ DBuf r=genvec(g,m.n()); RoScope rs; ro_vec(r,"right-hand side"); Sched s2=sc; s2.seed=g.next(); s2.pol=g.below(SHIM_NPOL); apply_sched(s2);
		DBuf z=apply(*p,r,k==0?0:k==1?NAN:1e9); LVec zb,ref= csc?bgsref(S,tol_l(r),zb):sgsref(S,tol_l(r),zb); cmpvec(z.p,ref,zb,1e-11,csc?"column Gauss-Seidel application":"symmetric Gauss-Seidel application"); count(csc?"csc_applications":sc.T==1?"sequential_applications":"async_applications"); }
	note_trace(c);
}
static void relaxset(Prec&p,int steps,bool ctol,double rtol,double atol,double dtol){ SolveParams<double> sp; sp.rtol=rtol; sp.atol=atol; sp.dtol=dtol; sp.ctol=ctol; sp.maxits=steps; p.setApplyParams(sp); }
// exact long double simulation of `steps` steps; kind 0 Jacobi, 1 forward GS, 2 SGS. visit: order of rows for GS forward
static void simulate(const Split&S,int kind,int steps,const LVec&b,LVec&x,LVec&xb,bool ctol=false,ld rtol=0,ld atol=0,ld dtol=0,bool*near=nullptr,int*done=nullptr){
	int n=(int)x.size(); ld ref=1; if(done) *done=0;
	for(int s=0;s<steps;s++){
		if(done) ++*done;
		if(kind==0){ LVec y(n),yb(n); for(int i=0;i<S.nb;i++) relaxrow(S,i,b,x,xb,y,yb);
			if(ctol){ ld d=0,sc=0; for(int i=0;i<n;i++){ d+=(y[i]-x[i])*(y[i]-x[i]); sc+=y[i]*y[i]+x[i]*x[i]; } d=sqrtl(d); sc=sqrtl(sc); x=y;xb=yb; if(s==0) ref=d; 
				auto nr=[&](ld a,ld t){ return fabsl(a-t)<=1e-6L*(fabsl(a)+fabsl(t)); };
				if(d<=1e-11L*sc||nr(d,atol)||nr(d,rtol*ref)||nr(d,dtol*ref)) *near=true;
				if(d<atol||d/ref<rtol||d/ref>dtol) return; }
			else { x=y;xb=yb; } }
		else { for(int i=0;i<S.nb;i++) relaxrow(S,i,b,x,xb,x,xb); if(kind==2) for(int i=S.nb-1;i>=0;i--) relaxrow(S,i,b,x,xb,x,xb); }
	} }
static const char*rt[]={"jacobi","gs","sgs","level_sgs"};
static void fam_relax(Case&c){ // P13: exact number of steps, sequential order
	Rng&g=c.rng; int ty=g.below(4); SM m=rmat(c,ty==3,hooks()?12:20,true,true); Split S=split(m); if(!S.ok){ c.trivial=true; return; }
	Set s; s.type=rt[ty]; s.relax=true; s.chunk=anychunk(g,g.pick<int>({1,2,3,8})); s.na=g.range(0,4); s.ai=(ApplyInit)g.below(3); Sched sc=gensched(g,8); if(ty==1||ty==2) sc.T=1;
	auto p=make(m,s); ro_mat(m); apply_sched(sc); p->compute(); int n=m.n();
	REQUIRE(p->relaxationAvailable(),"%s claims not to be a relaxation",rt[ty]);
	int calls=g.range(1,3);
	for(int k=0;k<calls;k++){
		int steps=g.range(0,6); bool ctol=ty==0&&g.chance(0.5); double rtol=g.chance(0.5)?std::pow(10,-3*g.uni()):0, atol=g.chance(0.3)?std::pow(10,-2*g.uni()):0, dtol=g.chance(0.2)?0.2+g.uni():1e10;
		bool viaapply=ty==1&&g.chance(0.4); if(viaapply) steps=s.na; else relaxset(*p,steps,ctol,rtol,atol,dtol);
		DBuf b=genvec(g,n),x=genvec(g,n); LVec lx(x.begin(),x.end()),lb(b.begin(),b.end()),xb(n); for(int i=0;i<n;i++) xb[i]=fabsl(lx[i]);
		bool near=false; int done=0; 
		simulate(S,ty==0?0:ty==1?1:2,steps,lb,lx,xb,ctol,rtol,atol,dtol,&near,&done);
		if(k==0) c.note(setdesc(s)+fmt(" steps=%d%s%s ",steps,ctol?fmt(" ctol(%g,%g,%g) stops after %d",rtol,atol,dtol,done).c_str():"",viaapply?" apply":"")+sdesc(sc));
		RoScope rs; ro_vec(b,"right-hand side"); Sched s2=sc; s2.seed=g.next(); s2.pol=g.below(SHIM_NPOL); apply_sched(s2);
		if(shim_race_mode&&(ty==0||ty==3)) shim_race_mode(1);
		if(viaapply) p->apply(b.p,x.p); else p->apply_relax(b.p,x.p);
		if(shim_race_mode) shim_race_mode(0);
		if(near){ count("near_threshold"); continue; }
		cmpvec(x.p,lx,xb,1e-11,fmt("%s %s of %d steps%s",rt[ty],viaapply?"application":"relaxation",steps,ctol?" with stopping tests":"")); count("relaxations"); if(done<steps) count("early_stops");
	}
	note_trace(c);
}
static void fam_chaotic(Case&c){ // P13: asynchronous sweeps contract, solution is a fixed point
	Rng&g=c.rng; int ty=g.below(3)==0?0:1+g.below(3); SM m; Split S; ld al=0; int n=0,bs=1;
	// a component of a neighbour may be read several times while its block is being relaxed, and each time with another value, if threads are interrupted between accesses: then the
	// products with the inverse of the diagonal block cannot cancel
	bool torn=hooks()&&(ty==1||ty==2);
	for(int tr=0;tr<6;tr++){ c.desc.clear(); m=rmat(c,ty==3,hooks()?12:24,false,true); S=split(m); al=1; if(!S.ok) continue; n=m.n(); bs=m.bs; al=0;
		for(int i=0;i<m.nb;i++) for(int a=0;a<bs;a++){ ld s=0; for(int p=m.rp[i];p<m.rp[i+1];p++) if(m.ci[p]!=i) for(int d=0;d<bs;d++){ ld t=0; for(int q=0;q<bs;q++){ ld u=S.dinv[i][a][q]*m.at(p,q,d); t+=torn?fabsl(u):u; } s+=fabsl(t); } al=std::max(al,s); }
		if(al<0.999L||!torn) break; }
	if(!(al<0.999L)){ c.trivial=true; return; }
	Set s; s.type=rt[ty]; s.relax=true; s.chunk=anychunk(g,g.pick<int>({1,1,2,4})); Sched sc=gensched(g,8); if(sc.T==1) sc.T=3; int steps=g.range(1,8); s.na=steps; bool fixed=g.chance(0.4), viaapply=ty==1&&g.chance(0.4);
	c.note(setdesc(s)+fmt(" steps=%d alpha=%.3f%s ",steps,(double)al,fixed?" at the solution":"")+sdesc(sc));
	DBuf b=genvec(g,n); LVec sol; if(c.big){ sol=tol_l(b); LVec t=smul(m,sol); for(int i=0;i<n;i++) b[i]=(double)t[i]; } else sol=lsolve(dense(m),tol_l(b)); ld sm=0; for(int i=0;i<n;i++) sm=std::max(sm,fabsl(sol[i]));
	DBuf x=genvec(g,n); if(fixed) for(int i=0;i<n;i++) x[i]=(double)sol[i];
	ld e0=0; for(int i=0;i<n;i++) e0=std::max(e0,fabsl(x[i]-sol[i]));
	auto p=make(m,s); ro_mat(m); apply_sched(sc); p->compute(); relaxset(*p,steps,false,0,0,1e30); RoScope rs; ro_vec(b,"right-hand side");
	if(shim_race_mode) shim_race_mode(ty==0||ty==3?1:0);
	if(viaapply) p->apply(b.p,x.p); else p->apply_relax(b.p,x.p);
	if(shim_race_mode) shim_race_mode(0);
	int S1= ty==1?steps: ty==2?2*steps : ty==0?steps : 2*steps; Sched s1=sc; if(ty==0||ty==3) s1.delay=0; // barriers between sweeps
	ld w=bs; for(int i=0;i<m.nb;i++) w=std::max(w,(ld)(m.rp[i+1]-m.rp[i])*bs); // the longest row
	ld lim=e0*powl(al,contractions(S1,s1)), rnd=0; for(int i=0;i<m.nb;i++){ std::vector<ld> mg(bs,0); for(int q=0;q<bs;q++){ mg[q]=fabsl((ld)b[i*bs+q]); for(int k=m.rp[i];k<m.rp[i+1];k++) for(int d=0;d<bs;d++) mg[q]+=fabsl((ld)m.at(k,q,d))*(fabsl(sol[m.ci[k]*bs+d])+e0); } for(int a=0;a<bs;a++){ ld t=0; for(int q=0;q<bs;q++) t+=S.kb[i][a][q]*mg[q]; rnd=std::max(rnd,t); } } rnd*=1e-14L*bs*(w+10)/(1-al); if(!(rnd<1e-6L*(sm+e0))){ c.trivial=true; count("chaotic_too_ill_conditioned"); return; }
	for(int i=0;i<n;i++){ ld e=fabsl(x[i]-sol[i]); if(!(e<=lim*1.0000001L+rnd)) FAIL("%s relaxation, %d steps: error %.6Lg of unknown %d exceeds the guaranteed %.6Lg (initial error %.6Lg, contraction %.4Lg)",rt[ty],steps,e,i,lim+rnd,e0,al); }
	count(fixed?"fixed_point_runs":"contraction_runs"); note_trace(c);
}
static void fam_norelax(Case&c){ // P13: methods without a relaxation say so and refuse
	Rng&g=c.rng; static const char*t[]={"ilu0","sfilu0","sapilu0","seqilu0","async_level_ilu0","cscbgs"}; int k=g.below(6); bool csc=k==5;
	SM m; do{ c.desc.clear(); m=rmat(c,true,8); }while(csc&&m.bs!=1); Set s; s.type=t[k]; s.relax=g.chance(0.5); c.note(setdesc(s));
	auto p=make(m,s); p->compute(); DBuf b(m.n(),1.0),x=genvec(g,m.n()); bool th=false; relaxset(*p,3,false,0,0,1e30);
	try{ p->apply_relax(b.p,x.p); }catch(const std::exception&){ th=true; } REQUIRE(!p->relaxationAvailable(),"%s claims to be a relaxation",t[k]); REQUIRE(th,"%s did not refuse to relax",t[k]); count("refusals");
}
// ------------------------------------------------------------ P14
static void checklevels(const SM&m,const std::vector<int>&lv){
	REQUIRE(lv.size()>=2||m.nb==0,"no levels"); REQUIRE(lv[0]==0,"levels start at %d",lv[0]); REQUIRE(lv.back()==m.nb,"levels end at %d of %d rows",lv.back(),m.nb);
	std::vector<int> l(m.nb,-1); for(size_t k=0;k+1<lv.size();k++){ REQUIRE(lv[k]<=lv[k+1],"level %zu is not ordered",k); for(int i=lv[k];i<lv[k+1];i++) l[i]=(int)k; }
	for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) if(m.ci[j]!=i) REQUIRE(l[i]!=l[m.ci[j]],"coupled rows %d and %d are in the same level",i,m.ci[j]);
	count("levels",lv.size()-1); count("level_edges",m.nnzb()); }
static void fam_levels(Case&c){
	Rng&g=c.rng; GenOpt o; o.sym=true; o.maxb=g.chance(0.2)?150:25; o.bs=1; if(c.big){ o.big=6000; o.deep=true; } SM m=genmat(g,o,&c); auto r=craw(m); ro_mat(m);
	checklevels(m,computeLevels(&r)); }
static void fam_lvlapply(Case&c){
	Rng&g=c.rng; int ty=g.below(3); bool huge=c.big&&!hooks()&&c.idx%5==2; if(huge) ty=(c.idx/5)%3; bool scale=ty==1&&g.chance(0.5); Shape sh=genshape(g); if(huge) sh.bs=1; GenOpt o; o.bs=sh.bs;o.rm=sh.rm;o.sym=true;o.posdiag=scale; o.mix=true; o.maxb=sh.bs>1?9:(hooks()?14:24); if(c.big){ o.big=sh.bs>1?700:2500; o.deep=true; } SM m=genmat(g,o,&c);
	Set s; s.scale=scale; s.chunk=anychunk(g,g.range(1,4)); s.type= ty==1?"async_level_ilu0":"level_sgs"; s.relax=ty==2; s.na=g.range(0,2); s.ai=(ApplyInit)g.below(3); s.fi=(FactInit)g.below(3); c.note(setdesc(s));
	auto r=craw(m); checklevels(m,computeLevels(&r)); int n=m.n();
	auto p=make(m,s); omp_set_num_threads(1); Sched one; apply_sched(one); p->compute(); ro_mat(m); 
	DBuf b=genvec(g,n),x0=genvec(g,n),zref; LVec ref,rb; bool longchain=m.nb>=HUGE_MIN; int steps=g.range(1,longchain?2:4);
	if(ty==1){ IluRef R=iluref(m,scale); if(!R.ok||R.growth>1e8){ c.trivial=true; return; } ref=iluapply(R,tol_l(b),rb); }
	else { Split S=split(m); if(!S.ok){ c.trivial=true; return; } if(ty==0) ref=sgsref(S,tol_l(b),rb); else { ref=tol_l(x0); rb=LVec(n); for(int i=0;i<n;i++) rb[i]=fabsl(ref[i]); simulate(S,2,steps,tol_l(b),ref,rb); } }
	relaxset(*p,steps,false,0,0,1e30); RoScope rs; ro_vec(b,"right-hand side");
	for(int k=0;k<(longchain?2:4);k++){ Sched sc=gensched(g,12); if(k==0) sc=one; else if(sc.T==1) sc.T=4; if(longchain) sc.T=std::min(sc.T,3); apply_sched(sc); if(shim_race_mode) shim_race_mode(1);
		DBuf z= ty==2? x0 : DBuf(n,k?NAN:0.0); if(ty==2) p->apply_relax(b.p,z.p); else p->apply(b.p,z.p);
		if(shim_race_mode) shim_race_mode(0);
		cmpvec(z.p,ref,rb,ty==1?1e-10:1e-11,fmt("level-scheduled %s",ty==1?"ILU application":ty==0?"SGS application":"SGS relaxation"));
		if(k==0) zref=z; else if(!(z==zref)) FAIL("level-scheduled result depends on the schedule (%s)",sdesc(sc).c_str()); count("level_runs"); }
	note_trace(c);
}
int main(int argc,char**argv){
	return run(argc,argv,{{"jacobi",fam_jacobi,800,8000},{"sgs",fam_sgs,800,8000},{"relax",fam_relax,800,8000},{"chaotic",fam_chaotic,800,8000},{"norelax",fam_norelax,80,400},{"levels",fam_levels,500,4000},{"lvlapply",fam_lvlapply,500,5000},
		{"jacobiL",large(fam_jacobi),40,400},{"sgsL",large(fam_sgs),40,400},{"relaxL",large(fam_relax),40,400},{"chaoticL",large(fam_chaotic),40,400},{"levelsL",large(fam_levels),40,400},{"lvlapplyL",large(fam_lvlapply),30,300}});
}
