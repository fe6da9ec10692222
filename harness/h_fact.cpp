// P18 factory, P19 independence of history
#include "lib.hpp"
#include "solverops_jacobi.hpp"
#include "solverops_sgs.hpp"
#include "solverops_ilu0.hpp"
#include "relaxation_chaotic.hpp"
#include "solverops_levels_sgs.hpp"
#include "solverops_levels_ilu0.hpp"
using namespace hx;
typedef SRMatrixStorage<double,int> Store;
static Store ownstore(const SM&m){ ArrayView<int> rp(m.nb+1),ci(m.nnzb()),di(m.nb),re(m.nb); ArrayView<double> v(m.nnzb()*m.bs*m.bs); for(int i=0;i<=m.nb;i++) rp[i]=m.rp[i]; for(int i=0;i<m.nnzb();i++) ci[i]=m.ci[i]; for(int i=0;i<m.nb;i++){ di[i]=m.di[i]; re[i]=m.re[i]; } for(size_t i=0;i<m.v.n;i++) v[(int)i]=m.v[i]; return Store(std::move(rp),std::move(ci),std::move(v),std::move(di),std::move(re),m.nb,m.nnzb(),m.nnzb()); }
#ifdef BUILD_BLOCK_SIZE
static const int XBS=BUILD_BLOCK_SIZE;
#else
static const int XBS=0;
#endif
struct Name { const char*n; BlastedSolverType t; };
static const Name NAMES[]={{"none",BLASTED_NO_PREC},{"jacobi",BLASTED_JACOBI},{"gs",BLASTED_GS},{"sgs",BLASTED_SGS},{"ilu0",BLASTED_ILU0},{"seqilu0",BLASTED_SEQILU0},{"sfilu0",BLASTED_SFILU0},{"sapilu0",BLASTED_SAPILU0},{"cscbgs",BLASTED_CSC_BGS},{"level_sgs",BLASTED_LEVEL_SGS},{"async_level_ilu0",BLASTED_ASYNC_LEVEL_ILU0}};
static const int NN=11;
static bool isilu(const std::string&t){ return t.find("ilu")!=std::string::npos; }
// the named method built from its class, without the factory
template<int bs,StorageOptions st> static Prec* directb(CStore&&w,const Set&s){
	const std::string&t=s.type;
	if(t=="none") return new NoPreconditioner<double,int>(std::move(w),bs);
	if(t=="jacobi") return new BJacobiSRPreconditioner<double,int,bs,st>(std::move(w));
	if(t=="gs") return new ChaoticBlockRelaxation<double,int,bs,st>(std::move(w),s.na,s.chunk);
	if(t=="sgs") return new AsyncBlockSGS_SRPreconditioner<double,int,bs,st>(std::move(w),s.na,s.ai,s.chunk);
	if(t=="level_sgs") return new Level_BSGS<double,int,bs,st>(std::move(w));
	if(t=="async_level_ilu0") return new Async_Level_BlockILU0<double,int,bs,st>(std::move(w),s.nb,s.scale,s.chunk,s.fi,true,s.info);
	if(isilu(t)) return new AsyncBlockILU0_SRPreconditioner<double,int,bs,st>(std::move(w),s.nb,s.na,s.scale,s.chunk,s.fi,s.ai,t=="ilu0"||t=="sapilu0",t=="ilu0"||t=="sfilu0",s.info);
	return nullptr;
}
static Prec* directs(CStore&&w,const Set&s){
	const std::string&t=s.type;
	if(t=="none") return new NoPreconditioner<double,int>(std::move(w),1);
	if(t=="jacobi") return new JacobiSRPreconditioner<double,int>(std::move(w));
	if(t=="gs") return new ChaoticRelaxation<double,int>(std::move(w),s.na,s.chunk);
	if(t=="sgs") return new AsyncSGS_SRPreconditioner<double,int>(std::move(w),s.na,s.ai,s.chunk);
	if(t=="cscbgs") return new CSC_BGS_Preconditioner<double,int>(std::move(w),s.na,s.chunk);
	if(t=="level_sgs") return new Level_SGS<double,int>(std::move(w));
	if(t=="async_level_ilu0") return new Async_Level_ILU0<double,int>(std::move(w),s.nb,s.scale,s.chunk,s.fi,true,s.info);
	if(isilu(t)) return new AsyncILU0_SRPreconditioner<double,int>(std::move(w),s.nb,s.na,s.scale,s.chunk,s.fi,s.ai,s.info,t=="ilu0"||t=="sapilu0",t=="ilu0"||t=="sfilu0");
	return nullptr;
}
static Prec* direct(const SM&m,const Set&s){
	CStore w=wrap(m);
	if(m.bs==1) return directs(std::move(w),s);
	if(m.bs==4) return m.rm? directb<4,RowMajor>(std::move(w),s) : directb<4,ColMajor>(std::move(w),s);
#ifdef BUILD_BLOCK_SIZE
	if(m.bs==XBS) return m.rm? directb<XBS,RowMajor>(std::move(w),s) : directb<XBS,ColMajor>(std::move(w),s);
#endif
	if(m.bs==5&&!m.rm) return directb<5,ColMajor>(std::move(w),s);
	return nullptr;
}
static void same(const double*a,const double*b,int n,const std::string&what){ for(int i=0;i<n;i++) if(memcmp(a+i,b+i,8)!=0 && !(a[i]!=a[i]&&b[i]!=b[i])) FAIL("%s: component %d is %.17g, expected %.17g",what.c_str(),i,a[i],b[i]); }
static void near6(const PrecInfo&a,const PrecInfo&b,const std::string&what){ for(int i=0;i<6;i++){ double x=a.f_info[i],y=b.f_info[i]; if(x!=x&&y!=y) continue; if(x==y) continue; REQUIRE(std::fabs(x-y)<=1e-11*(std::fabs(x)+std::fabs(y)+1),"%s: component %d is %.17g, expected %.17g",what.c_str(),i,x,y); } }
static Shape fshape(Rng&g){ if(XBS&&g.chance(0.7)){ Shape s={XBS,g.chance(0.5)}; return s; } return genshape(g); }
static Set genset(Rng&g,const Shape&sh){
	Set s; do s.type=NAMES[g.below(NN)].n; while(sh.bs>1&&s.type=="cscbgs"); if(sh.bs==1&&g.chance(0.12)) s.type="cscbgs";   // available for scalar matrices only
	s.relax=g.chance(0.3); s.scale=g.chance(0.5); s.info=g.chance(0.4); s.chunk=anychunk(g,g.pick<int>({1,1,2,3,5,9})); s.nb=g.pick<int>({1,1,2,3,5,12}); s.na=g.pick<int>({1,1,2,3,5,12}); s.fi=(FactInit)g.below(4); s.ai=(ApplyInit)g.below(3);
	if(hooks()){ if(s.fi==INIT_F_NONE) s.fi=INIT_F_ORIGINAL; if(s.ai==INIT_A_NONE) s.ai=INIT_A_JACOBI; }   // uninitialised memory is not reproducible there
	if(isilu(s.type)&&s.ai==INIT_A_NONE) s.ai=INIT_A_ZERO;   // not implemented for ILU application
	return s; }
static SM fmat(Case&c,const Shape&sh,bool sym,int maxn=14){ GenOpt o; o.bs=sh.bs;o.rm=sh.rm;o.sym=sym;o.posdiag=true;o.maxb=sh.bs>1?std::min(maxn,8):maxn; o.minb=1; if(c.big) o.big=sh.bs>1?300:1500; return genmat(c.rng,o,&c); }

static void fam_names(Case&c){
	Rng&g=c.rng; SRFactory<double,int> f;
	if(c.idx==0) for(int i=0;i<NN;i++) REQUIRE(f.solverTypeFromString(NAMES[i].n)==NAMES[i].t,"method name %s maps to the wrong method",NAMES[i].n);
	if(c.idx==0){ REQUIRE(getFactInitFromString("init_zero")==INIT_F_ZERO&&getFactInitFromString("init_original")==INIT_F_ORIGINAL&&getFactInitFromString("init_sgs")==INIT_F_SGS&&getFactInitFromString("init_none")==INIT_F_NONE,"factor initialisation names"); REQUIRE(getApplyInitFromString("init_zero")==INIT_A_ZERO&&getApplyInitFromString("init_jacobi")==INIT_A_JACOBI&&getApplyInitFromString("init_none")==INIT_A_NONE,"apply initialisation names"); }
	static const char*inits[]={"init_zero","init_original","init_sgs","init_none","init_jacobi"};
	// near misses of valid names
	std::string t= g.chance(0.5)? NAMES[g.below(NN)].n : inits[g.below(5)]; std::string o=t; int k=g.range(1,3);
	while(k--){ int p=g.below((int)t.size()+1); switch(g.below(6)){ case 0: t.insert(t.begin()+p,(char)g.range(32,126)); break; case 1: if(!t.empty()&&p<(int)t.size()) t.erase(t.begin()+p); break; case 2: if(p<(int)t.size()) t[p]=toupper(t[p]); break; case 3: t+=NAMES[g.below(NN)].n; break; case 4: t.clear(); break; default: if(p<(int)t.size()) t[p]=(char)g.range(32,126); } }
	c.note("name \""+t+"\""); bool isname=false; BlastedSolverType want=BLASTED_NO_PREC; for(int i=0;i<NN;i++) if(t==NAMES[i].n){ isname=true; want=NAMES[i].t; }
	try{ BlastedSolverType r=f.solverTypeFromString(t); REQUIRE(isname&&r==want,"the name \"%s\" was accepted as a method",t.c_str()); } catch(const std::invalid_argument&){ REQUIRE(!isname,"the name %s was refused",t.c_str()); }
	int fi=-1,ai=-1; for(int i=0;i<4;i++) if(t==inits[i]) fi=i; if(t=="init_zero") ai=0; if(t=="init_jacobi") ai=1; if(t=="init_none") ai=2;
	try{ int r=getFactInitFromString(t); REQUIRE(fi==r,"the name \"%s\" was accepted as factor initialisation %d",t.c_str(),r); } catch(const std::invalid_argument&){ REQUIRE(fi<0,"factor initialisation %s refused",t.c_str()); }
	try{ int r=getApplyInitFromString(t); REQUIRE(ai==r,"the name \"%s\" was accepted as apply initialisation %d",t.c_str(),r); } catch(const std::invalid_argument&){ REQUIRE(ai<0,"apply initialisation %s refused",t.c_str()); }
	count("names_tried");
}
static void solvep(Prec&p,int maxits){ SolveParams<double> sp; sp.rtol=1e-3; sp.atol=1e-300; sp.dtol=1e10; sp.ctol=false; sp.maxits=maxits; p.setApplyParams(sp); }
static void fam_build(Case&c){
	Rng&g=c.rng; Shape sh=fshape(g); Set s=genset(g,sh); SM m=fmat(c,sh,s.type.find("level")!=std::string::npos); Sched sc=gensched(g,8); c.note(setdesc(s)); c.note(sdesc(sc));
	SRFactory<double,int> f; AsyncSolverSettings o=settings(m,s);
	bool own=g.chance(0.25);
	std::unique_ptr<Prec> a,b(direct(m,s)); REQUIRE(b!=nullptr,"harness: no class for %s",s.type.c_str());
	if(own){ // hand over owned storage; everything passed in is gone when the preconditioner is used
		SRMatrixStorage<double,int> q=ownstore(m);
		a.reset(f.create_preconditioner(move_to_const(std::move(q)),o)); count("owned_storage");
	} else { a.reset(f.create_preconditioner(wrap(m),o)); ro_mat(m); }
	REQUIRE(a&&a->dim()==m.n(),"%s: dimension %d, expected %d",s.type.c_str(),a?a->dim():-1,m.n());
	REQUIRE(a->relaxationAvailable()==b->relaxationAvailable(),"%s: relaxation availability",s.type.c_str());
	PrecInfo ia,ib; int comps=g.chance(0.2)?2:1;
	for(int k=0;k<comps;k++){ uint64_t sd=g.next(); sc.seed=sd; apply_sched(sc); ia=a->compute(); apply_sched(sc); ib=b->compute(); }
	if(s.info&&isilu(s.type)) near6(ia,ib,s.type+" diagnostics");
	for(int k=0;k<3;k++){ DBuf r=genvec(g,m.n()); RoScope rs; ro_vec(r,"right-hand side"); sc.seed=g.next(); sc.pol=g.below(SHIM_NPOL); double fill= (hooks()||s.ai!=INIT_A_NONE)&&g.chance(0.3)?3.5:0;
		apply_sched(sc); DBuf x=apply(*a,r,fill); apply_sched(sc); DBuf y=apply(*b,r,fill); same(x.p,y.p,m.n(),s.type+" from the factory differs from its class"); count("applications_compared"); }
	if(a->relaxationAvailable()){ int its=g.range(1,3); solvep(*a,its); solvep(*b,its); DBuf r=genvec(g,m.n()),x=genvec(g,m.n()),y=x; sc.seed=g.next(); apply_sched(sc); a->apply_relax(r.p,x.p); apply_sched(sc); b->apply_relax(r.p,y.p); same(x.p,y.p,m.n(),s.type+" relaxation"); count("relaxations_compared"); }
	count("built_"+s.type); note_trace(c);
}
// what each name promises, independently of the classes
static void fam_promise(Case&c){
	Rng&g=c.rng; Shape sh=fshape(g); Set s=genset(g,sh); while(s.type=="gs") s=genset(g,sh); SM m=fmat(c,sh,s.type.find("level")!=std::string::npos,10); Sched sc=gensched(g,6); if(s.type=="cscbgs") sc.T=1; int dl,du; depthLU(m,dl,du); int dm=std::max(dl,du);
	IluRef R; bool ilu=isilu(s.type); if(ilu){ R=iluref(m,s.scale); if(!R.ok||R.growth>1e8){ c.trivial=true; return; } }
	bool seqf=s.type=="seqilu0"||s.type=="sfilu0", seqa=s.type=="seqilu0"||s.type=="sapilu0"||s.type=="async_level_ilu0"||s.type=="level_sgs";
	if(!seqf&&ilu) s.nb=sweeps(R.depth,sc); if(!seqa) s.na=sweeps(dm,sc);
	c.note(setdesc(s)); c.note(sdesc(sc)); auto p=make(m,s); ro_mat(m); apply_sched(sc); p->compute(); LMat A=dense(m); LVec zb,ref; int n=m.n(),bs=m.bs;
	for(int k=0;k<2;k++){ DBuf r=genvec(g,n); sc.seed=g.next(); apply_sched(sc); DBuf z=apply(*p,r,k?NAN:0); LVec l=tol_l(r);
		if(s.type=="none"){ for(int i=0;i<n;i++) REQUIRE(z[i]==r[i],"identity changed component %d",i); }
		else if(ilu){ ref=iluapply(R,l,zb); cmpvec(z.p,ref,zb,1e-10,s.type); }
		else { // residual of M z = r with M from the split D+L+U
			LMat M=lmat(n,n); std::vector<LMat> di(m.nb); bool ok=true; for(int i=0;i<m.nb;i++) ok=linv(blk(A,bs,i,i),di[i])&&ok; if(!ok){ c.trivial=true; return; }
			auto part=[&](int w){ LMat P=lmat(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ int bi=i/bs,bj=j/bs; if(bi==bj||(w<0&&bj<bi)||(w>0&&bj>bi)) P[i][j]=A[i][j]; } return P; };
			if(s.type=="jacobi") M=part(0); else if(s.type=="cscbgs") M=part(1);
			else { LMat D=lmat(n,n); for(int i=0;i<m.nb;i++) for(int a=0;a<bs;a++) for(int b=0;b<bs;b++) D[i*bs+a][i*bs+b]=di[i][a][b]; M=lmm(lmm(part(-1),D),part(1)); }
			LMat Mi; if(!linv(M,Mi)){ c.trivial=true; return; } LVec x=lmul(Mi,l); LVec t(n); for(int i=0;i<n;i++) t[i]=fabsl(x[i]);
			LMat aM=M,aI=Mi; for(auto&q:aM) for(auto&v:q) v=fabsl(v); for(auto&q:aI) for(auto&v:q) v=fabsl(v); LVec bd=lmul(aI,lmul(aM,t)); ld mx=0; for(int i=0;i<n;i++) mx=std::max(mx,bd[i]); for(int i=0;i<n;i++) bd[i]+=1e-2L*mx; cmpvec(z.p,x,bd,1e-9,s.type); }
		count("promised_"+s.type); }
	note_trace(c);
}
static void fam_refuse(Case&c){
	Rng&g=c.rng; SRFactory<double,int> f; int kind=g.below(5); Shape sh; sh.rm=g.chance(0.5);
	GenOpt o; AsyncSolverSettings st; Set s; s.type=NAMES[g.below(NN)].n; std::string why;
	if(kind==0){ do { sh.bs=g.range(2,9); if(g.chance(0.2)) sh.bs=g.range(10,40); } while(sh.bs==4||(sh.bs==5&&!sh.rm)||(XBS&&sh.bs==XBS)); o.bs=sh.bs; why=fmt("block size %d %s-major",sh.bs,sh.rm?"row":"column"); }
	else { sh=fshape(g); o.bs=sh.bs; o.rm=sh.rm; }
	if(sh.bs>8) o.maxb=2; else o.maxb=6; o.rm=sh.rm; SM m=genmat(g,o,&c); st=settings(m,s);
	if(kind==1){ st.prectype=BLASTED_EXTERNAL; why="unavailable method"; }
	if(kind==2){ if(sh.bs==1){ st.prectype=BLASTED_EXTERNAL; why="unavailable method"; } else { st.prectype=BLASTED_CSC_BGS; why="column Gauss-Seidel for blocks"; } }
	if(kind==3){ st.bs=g.pick<int>({0,-1,-4,-5,1000,3,8}); if(XBS&&st.bs==XBS) st.bs=9; why=fmt("block size setting %d",st.bs); }
	if(kind==4){ if(m.bs==1){ st.bs=2; why="block size 2"; } else { st.blockstorage=Eigen::DontAlign; why="layout neither row nor column major"; } }
	c.note("refuse "+why+" "+s.type); bool own=g.chance(0.5); SM copy=m;
	leakcheck("refused construction",[&]{
		bool refused=false; Prec*p=nullptr;
		try{
			if(own){ SRMatrixStorage<double,int> q=ownstore(m); p=f.create_preconditioner(move_to_const(std::move(q)),st); }
			else p=f.create_preconditioner(wrap(m),st);
		} catch(const std::invalid_argument&){ refused=true; }
		if(p) delete p; REQUIRE(refused,"%s accepted for %s",why.c_str(),s.type.c_str()); });
	REQUIRE(copy.v==m.v&&copy.ci==m.ci,"refused construction changed the matrix"); count("refusals");
}
// ---------------------------------------------------------------- P19
static void newvals(Rng&g,SM&m){ // new values on the same pattern, positive dominant diagonal
	GenOpt o; o.bs=m.bs;o.rm=m.rm; std::vector<double> sum(m.n(),0); double mg=1.2+g.uni();
	for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int r=0;r<m.bs;r++) for(int q=0;q<m.bs;q++){ if(m.ci[j]==i&&r==q) continue; double x=g.chance(0.1)?0:g.sym()*3; m.at(j,r,q)=x; sum[i*m.bs+r]+=std::fabs(x); }
	for(int i=0;i<m.nb;i++) for(int r=0;r<m.bs;r++) m.at(m.di[i],r,r)=mg*sum[i*m.bs+r]+0.5+g.uni(); }
static void fam_history(Case&c){
	Rng&g=c.rng; Shape sh=fshape(g); Set s=genset(g,sh); while(s.type=="none") s=genset(g,sh); if(s.fi==INIT_F_NONE) s.fi=INIT_F_SGS; if(s.ai==INIT_A_NONE) s.ai=INIT_A_ZERO;
	SM m=fmat(c,sh,s.type.find("level")!=std::string::npos,12); Sched sc=gensched(g,6); c.note(setdesc(s)); c.note(sdesc(sc));
	bool ilu=isilu(s.type); std::unique_ptr<Prec> a=make(m,s); std::unique_ptr<Prec> other; SM m2; Set so; int n=m.n(); bool gs=s.type=="gs";
	bool exact= sc.T==1 || s.type=="jacobi" || s.type=="level_sgs" || s.type=="seqilu0";
	int steps=!c.big&&g.chance(0.08)?g.range(20,60):g.range(3,8), since=0; bool comp=false;
	if(!c.big&&!hooks()&&n<=30&&g.chance(0.01)) steps=g.range(200,900);
	bool vary=sc.T>1&&g.chance(0.5); if(vary) c.note("teams of different sizes"); // every call has a team of its own
	auto sched=[&](uint64_t sd){ Sched t=sc; t.seed=sd; if(vary) t.T=1+(int)((sd>>33)%sc.T); apply_sched(t); };
	for(int k=0;k<steps;k++){
		int op= k==0?0 : g.below(10);
		if(op<4){ // values change, recompute; compare with a fresh object of the new values
			if(k&&g.chance(0.8)){ newvals(g,m); if(g.chance(0.3)){ int kk=g.below(m.n()); for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int q=0;q<m.bs;q++) if(i*m.bs==kk) m.at(j,0,q)*=1024; } }
			uint64_t sd=g.next(); PrecInfo ia,ib; sched(sd); ia=a->compute(); since++; comp=true; std::unique_ptr<Prec> f=make(m,s); sched(g.next()); ib=f->compute();
			if(!exact){ sched(sd); ib=f->compute(); if(since==1){ sched(sd); ia=a->compute(); since++; } } // same recomputation under the same schedule
			if(s.info&&ilu) near6(ia,ib,"diagnostics after recomputing");
			for(int q=0;q<2;q++){ DBuf r=genvec(g,n); uint64_t s2=g.next(); double fl=gs?0:5.25; sched(s2); DBuf x=apply(*a,r,0); sched(s2); DBuf y=apply(*f,r,q?fl:0); same(x.p,y.p,n,fmt("%s recomputed %d times differs from a fresh one",s.type.c_str(),since)); count("fresh_comparisons"); }
			if(a->relaxationAvailable()){ int its=g.range(1,3); solvep(*a,its); solvep(*f,its); DBuf r=genvec(g,n),x=genvec(g,n),y=x; uint64_t s2=g.next(); sched(s2); a->apply_relax(r.p,x.p); sched(s2); f->apply_relax(r.p,y.p); same(x.p,y.p,n,s.type+" relaxation after recomputing differs from a fresh one"); }
		} else if(op<8){ // repeatable, whatever happened in between and whatever the output array held
			DBuf r=genvec(g,n); uint64_t s2=g.next(); sched(s2); DBuf x=apply(*a,r,0);
			int between=g.below(4); for(int q=0;q<between;q++){ DBuf r2=genvec(g,n); sched(g.next()); DBuf t=apply(*a,r2,g.sym()); if(a->relaxationAvailable()&&g.chance(0.5)){ solvep(*a,g.range(1,3)); sched(g.next()); a->apply_relax(r2.p,t.p); } if(other&&g.chance(0.5)){ DBuf r3=genvec(g,m2.n()); sched(g.next()); apply(*other,r3,0); } }
			DBuf z(n,gs?0:NAN); sched(s2); a->apply(r.p,z.p); same(z.p,x.p,n,s.type+" application repeated"); count("repetitions"); if(between) count("repetitions_with_interference");
		} else { // another object
			other.reset(); Shape s3=genshape(g); so=genset(g,s3); if(so.fi==INIT_F_NONE) so.fi=INIT_F_SGS; if(so.ai==INIT_A_NONE) so.ai=INIT_A_ZERO; GenOpt o; o.bs=s3.bs;o.rm=s3.rm;o.posdiag=true;o.maxb=8;o.sym=true; m2=genmat(g,o); other=make(m2,so); sched(g.next()); other->compute(); DBuf r=genvec(g,m2.n()); sched(g.next()); apply(*other,r,0); count("other_objects");
		}
	}
	(void)comp; count("histories_"+s.type); note_trace(c);
}
// several threads of the user, each with operators of its own (built, computed, applied at the same time)
struct User { SM m; Set s; std::vector<DBuf> r,z,ref; std::vector<DBuf> xr,xz,xref; int its=1; bool gs=false; };
static void userwork(User&u,bool reference){
	std::unique_ptr<Prec> p=make(u.m,u.s); for(int k=0;k<(int)u.r.size();k++){ if(k%2==0) p->compute(); (reference?u.ref:u.z)[k]=DBuf(u.m.n(),u.gs?0:NAN); p->apply(u.r[k].p,(reference?u.ref:u.z)[k].p);
		if(p->relaxationAvailable()){ solvep(*p,u.its); DBuf x=u.xr[k]; p->apply_relax(u.r[k].p,x.p); (reference?u.xref:u.xz)[k]=x; } } }
static void fam_together(Case&c){
	Rng&g=c.rng; int T=g.range(2,4); std::vector<User> us(T); bool sametype=g.chance(0.4),samem=g.chance(0.4);
	for(int k=0;k<T;k++){ User&u=us[k]; Shape sh=fshape(g); Set s=genset(g,sh); while(s.type=="none") s=genset(g,sh);
		if(k&&(samem||sametype)){ sh.bs=us[0].m.bs; sh.rm=us[0].m.rm; s=genset(g,sh); while(s.type=="none") s=genset(g,sh); } if(k&&sametype){ s=us[0].s; s.na=g.range(1,3); }
		if(s.fi==INIT_F_NONE) s.fi=INIT_F_SGS; if(s.ai==INIT_A_NONE) s.ai=INIT_A_ZERO; u.s=s; u.gs=s.type=="gs";
		if(k&&samem) u.m=us[0].m; else u.m=fmat(c,sh,true,9); u.its=g.range(1,3); int na=g.range(1,3); for(int q=0;q<na;q++){ u.r.push_back(genvec(g,u.m.n())); u.xr.push_back(genvec(g,u.m.n())); } u.z.resize(na);u.ref.resize(na);u.xz.resize(na);u.xref.resize(na); c.note(setdesc(s)); }
	if(samem){ for(int k=1;k<T;k++) us[k].m=us[0].m; }
	Sched sc=gensched(g,4); sc.T=T; c.note(sdesc(sc)); if(!shim_foreign_call){ c.trivial=true; return; } const bool foreign=true; // not inside OpenMP regions: orphaned work-sharing loops of the library would bind to them
	{ Sched one=sc; one.T=1; apply_sched(one); for(auto&u:us) userwork(u,true); }
	for(auto&u:us){ ro_mat(u.m); for(auto&r:u.r) ro_vec(r,"right-hand side"); }
	if(shim_race_mode) shim_race_mode(1);
	apply_sched(sc); if(shim_short) shim_short(0,1); auto*pu=&us;
	#pragma omp parallel num_threads(T)
	{ int me=omp_get_thread_num(); auto work=[&]{ userwork((*pu)[me],false); }; if(foreign) shim_foreign_call([](void*p){ (*(decltype(work)*)p)(); },&work); else work(); }
	for(auto&u:us) for(size_t k=0;k<u.r.size();k++){ same(u.z[k].p,u.ref[k].p,u.m.n(),u.s.type+" used at the same time as other operators by other threads"); count("concurrent_uses"); if(u.xz[k].n) same(u.xz[k].p,u.xref[k].p,u.m.n(),u.s.type+" relaxation at the same time as other operators"); }
	note_trace(c);
}
int main(int argc,char**argv){ return run(argc,argv,{{"names",fam_names,600,4000},{"build",fam_build,700,7000},{"promise",fam_promise,400,4000},{"refuse",fam_refuse,400,4000},{"history",fam_history,500,5000},{"together",fam_together,400,4000},{"buildL",large(fam_build),30,300},{"historyL",large(fam_history),24,240}}); }
