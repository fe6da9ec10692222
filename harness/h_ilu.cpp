// P08, P09, P10, P23(ilu): incomplete LU factorisation and application
#include "lib.hpp"
using namespace hx;

static SM ilumat(Case&c,bool scale,bool symlevels,int maxn,bool deep=false,bool mix=true){
	Rng&g=c.rng; Shape s=genshape(g); GenOpt o; o.bs=s.bs; o.rm=s.rm; o.posdiag=scale; o.mix=mix; o.sym=symlevels; o.maxb=std::max(2,s.bs>1?std::min(9,maxn):maxn); o.minb=1; if(c.big){ o.big=s.bs>1?700:2500; o.deep=deep; }
	return genmat(g,o,&c); }
static void chk(const Prec&p,const IluRef&R,const DBuf&r,const char*what,double tol=1e-10,double fill=0){
	DBuf z=apply(p,r,fill); LVec zb; LVec ref=iluapply(R,tol_l(r),zb); cmpvec(z.p,ref,zb,tol,what); count("operator_applications"); }

// independent check: recovered operator times product of factors = I on the pattern (P08)
static void recover_check(const Prec&p,const SM&m,const IluRef&R,bool scale){
	int n=m.n(); if(n>40) return;
	LMat Minv=lmat(n,n); DBuf e(n,0.0);
	for(int k=0;k<n;k++){ e[k]=1; DBuf z=apply(p,e); e[k]=0; for(int i=0;i<n;i++) Minv[i][k]=z[i]; }
	LMat M; if(!linv(Minv,M)) FAIL("recovered operator is singular");
	LMat A=dense(m); ld mx=0;
	LMat absLU=lmat(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) for(int k=0;k<n;k++) absLU[i][j]+=fabsl(R.L[i][k]*R.U[k][j]);
	for(int i=0;i<n;i++) for(int j=0;j<n;j++) absLU[i][j]/=R.s[i]*R.s[j];
	LVec rs(n,0),cs(n,0); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ rs[i]=std::max(rs[i],absLU[i][j]); cs[j]=std::max(cs[j],absLU[i][j]); }
	for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int a=0;a<m.bs;a++) for(int b=0;b<m.bs;b++){
		int I=i*m.bs+a,J=m.ci[j]*m.bs+b; ld err=fabsl(M[I][J]-A[I][J]); mx=std::max(mx,err);
		if(!(err<=1e-6L*(rs[I]+absLU[I][J]))) FAIL("L U differs from the matrix at pattern position (%d,%d): %.12Lg instead of %.12Lg",I,J,M[I][J],A[I][J]); count("pattern_positions_checked"); }
	(void)scale;
}

static void fam_seq(Case&c){ // P08
	Rng&g=c.rng; bool scale=g.chance(0.5); int how=g.below(4); bool level=how==3;
	SM m=ilumat(c,scale,level,14,true); IluRef R=iluref(m,scale); if(!R.ok||R.growth>1e8){ c.trivial=true; return; }
	Set s; s.scale=scale; s.chunk=anychunk(g,g.pick<int>({1,2,3,7,64})); s.nb=g.pick<int>({1,1,1,2,5}); s.fi=(FactInit)g.below(4); s.ai=(ApplyInit)g.below(2); s.na=g.pick<int>({1,1,2,4}); s.info=g.chance(0.3);
	s.type = how==0?"seqilu0":how==1?"ilu0":how==2?"sfilu0":"async_level_ilu0"; c.note(setdesc(s));
	auto p=make(m,s);
	// how 0: sequential whatever the thread count; 1,3: one thread; 2: sequential factorisation requested, applied by one thread
	Sched sc=gensched(g,8); if(how==1||how==3) sc.T=1; c.note(sdesc(sc)); apply_sched(sc);
	ro_mat(m);
	p->compute();
	if(how==2){ sc.T=1; apply_sched(sc); }
	if(how==3){ sc.T=g.range(1,6); apply_sched(sc); }
	REQUIRE(p->dim()==m.n(),"dim() is %d, expected %d",p->dim(),m.n());
	for(int k=0;k<2;k++){ DBuf r=genvec(g,m.n()); chk(*p,R,r,"sequential ILU apply",1e-10,k?NAN:0.0); }
	if(how!=3||sc.T==1) recover_check(*p,m,R,scale);
	note_trace(c);
}

static void fam_async(Case&c){ // P09
	Rng&g=c.rng; bool scale=g.chance(0.5); int how=g.below(3); bool level=how==2;
	SM m=ilumat(c,scale,level,hooks()?10:14); IluRef R=iluref(m,scale); if(!R.ok||R.growth>1e8){ c.trivial=true; return; }
	Sched sc=gensched(g,8); if(sc.T==1) sc.T=2+g.below(4);
	Set s; s.scale=scale; s.chunk=anychunk(g,g.pick<int>({1,1,2,3,7})); s.nb=sweeps(R.depth,sc)+g.below(2); s.fi=(FactInit)g.below(4); s.ai=(ApplyInit)g.below(2); s.info=g.chance(0.25);
	s.type=how==0?"ilu0":how==1?"sapilu0":"async_level_ilu0"; c.note(setdesc(s)); c.note(sdesc(sc));
	auto p=make(m,s); ro_mat(m); apply_sched(sc);
	int rep=g.chance(0.2)?2:1;
	for(int i=0;i<rep;i++) p->compute();
	note_trace(c);
	Sched one=sc; if(how!=1){ one.T=1; apply_sched(one); }
	for(int k=0;k<2;k++){ DBuf r=genvec(g,m.n()); chk(*p,R,r,"asynchronous ILU factors"); }
	count("async_factorisations",rep); count(fmt("depth_le_%d",R.depth<5?5:R.depth<15?15:100));
}

static void fam_apply(Case&c){ // P10
	Rng&g=c.rng; bool scale=g.chance(0.5); int how=g.below(5); bool level=how==3;
	SM m=ilumat(c,scale,level,hooks()?12:16); IluRef R=iluref(m,scale); if(!R.ok||R.growth>1e8){ c.trivial=true; return; }
	int dl,du; depthLU(m,dl,du);
	Sched sc=gensched(g,8);
	Set s; s.scale=scale; s.chunk=anychunk(g,g.pick<int>({1,1,2,3,9})); s.na=sweeps(std::max(dl,du),sc)+g.below(2); s.fi=(FactInit)g.below(3); s.ai=(ApplyInit)g.below(2);
	s.type = how==0?"sfilu0":how==1?"ilu0":how==2?"seqilu0":how==3?"async_level_ilu0":"sapilu0";
	if(how==1||how==4) s.nb=sweeps(R.depth,sc);
	if(how==2||how==4) s.na=1;          // sequential application: one sweep is exact
	if(how==3) s.nb=sweeps(R.depth,sc);
	c.note(setdesc(s)); c.note(sdesc(sc));
	auto p=make(m,s); ro_mat(m); apply_sched(sc); p->compute();
	for(int k=0;k<3;k++){ DBuf r=genvec(g,m.n()); RoScope rs; ro_vec(r,"right-hand side"); Sched s2=sc; s2.seed=g.next(); s2.pol=g.below(SHIM_NPOL); apply_sched(s2); chk(*p,R,r,"ILU application",1e-10,k==1?NAN:k==2?1e9:0); }
	bool thrown=false; DBuf a(m.n(),1.0),b(m.n(),0.0); try{ p->apply_relax(a.p,b.p); }catch(std::runtime_error&){ thrown=true; }
	REQUIRE(thrown && !p->relaxationAvailable(),"ILU claims to be a relaxation");
	note_trace(c);
}

// ---------------------------------------------------------------- P23
struct Fac { LMat L,U; };
static Fac blocklu(const LMat&M,int bs){ // unpivoted block LU of a dense matrix
	int n=(int)M.size(),nb=n/bs; Fac f; f.L=lmat(n,n); f.U=M; for(int i=0;i<n;i++) f.L[i][i]=1;
	for(int k=0;k<nb;k++){ LMat di; if(!linv(blk(f.U,bs,k,k),di)) FAIL("recovered operator has no LU factors");
		for(int i=k+1;i<nb;i++){ LMat l=lmm(blk(f.U,bs,i,k),di); for(int a=0;a<bs;a++) for(int b=0;b<bs;b++) f.L[i*bs+a][k*bs+b]=l[a][b];
			for(int j=k;j<nb;j++){ LMat q=lmm(l,blk(f.U,bs,k,j)); for(int a=0;a<bs;a++) for(int b=0;b<bs;b++) f.U[i*bs+a][j*bs+b]-=q[a][b]; } } }
	return f; }
static ld remainder(const LMat&A,const SM&m,const LMat&L,const LMat&U,ld*mag){
	ld s=0; *mag=0; int bs=m.bs,n=m.n();
	for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int a=0;a<bs;a++) for(int b=0;b<bs;b++){ int I=i*bs+a,J=m.ci[j]*bs+b; ld x=A[I][J],y=fabsl(x); for(int k=0;k<n;k++){ x-=L[I][k]*U[k][J]; y+=fabsl(L[I][k]*U[k][J]); } s+=fabsl(x); *mag+=y; }
	return s; }
static bool known_zero(const Case&,const SM&m,const Set&s){ return m.bs==1 && s.fi==INIT_F_ZERO; }
static void fam_diag(Case&c){ // P23
	Rng&g=c.rng; bool scale=g.chance(0.5); bool level=g.chance(0.25);
	SM m=ilumat(c,scale,level,10,false,false); while(m.n()>36) m=ilumat(c,scale,level,6,false,false);
	IluRef R=iluref(m,scale); if(!R.ok||R.growth>1e6){ c.trivial=true; return; }
	Sched sc=gensched(g,6); Set s; s.scale=scale; s.chunk=anychunk(g,g.range(1,4)); s.fi=(FactInit)g.below(4); s.ai=INIT_A_ZERO; s.info=true;
	int how=g.below(4); // 0 exact async, 1 sequential, 2 too few sweeps, 3 no sweep at all
	s.nb= how==0? sweeps(R.depth,sc) : how==1||how==2? 1 : 0; s.type=how==1?"seqilu0":level?"async_level_ilu0":(g.chance(0.5)?"sapilu0":"ilu0");
	if(how==1) s.fi=(FactInit)g.below(4);
	if(how==3&&(s.fi==INIT_F_ZERO||s.fi==INIT_F_NONE)) s.fi=INIT_F_SGS;
	if(how==2&&s.fi==INIT_F_ZERO) s.fi=INIT_F_ORIGINAL;
	c.note(setdesc(s)); c.note(sdesc(sc));
	if(known_zero(c,m,s)){ s.fi=INIT_F_SGS; c.note("(scalar init_zero replaced: see fam_initzero)"); }
	auto p=make(m,s); apply_sched(sc); ro_mat(m); PrecInfo pi=p->compute(); note_trace(c); ro_mat(m);
	sc.T=1; apply_sched(sc);
	int n=m.n(),bs=m.bs; LMat A=dense(m); for(int i=0;i<n;i++) for(int j=0;j<n;j++) A[i][j]*=R.s[i]*R.s[j];
	// initial factors
	if(s.fi!=INIT_F_NONE){
		LMat L=lmat(n,n),U=lmat(n,n); for(int i=0;i<n;i++) L[i][i]=1;
		if(s.fi!=INIT_F_ZERO) for(int i=0;i<m.nb;i++) for(int j=0;j<m.nb;j++) if(R.pat[i][j]){ LMat B=blk(A,bs,i,j); if(j<i&&s.fi==INIT_F_SGS){ LMat d; linv(blk(A,bs,j,j),d); B=lmm(B,d); } for(int a=0;a<bs;a++) for(int b=0;b<bs;b++) (j<i?L:U)[i*bs+a][j*bs+b]=B[a][b]; }
		ld mag,ref=remainder(A,m,L,U,&mag); double got=pi.prec_rem_initial_norm();
		REQUIRE(fabsl(got-ref)<=1e-9L*mag,"initial remainder norm reported as %.15g, true value %.15Lg",got,ref); count("initial_norms");
	}
	// factors actually used, recovered from the operator
	if(how!=1 || true){
		LMat Minv=lmat(n,n); DBuf e(n,0.0); bool fin=true;
		if(s.type!="sapilu0"&&s.type!="seqilu0"&&s.type!="async_level_ilu0"&&s.type!="ilu0") fin=false;
		for(int k=0;k<n;k++){ e[k]=1; DBuf z=apply(*p,e); e[k]=0; for(int i=0;i<n;i++){ Minv[i][k]=z[i]/(R.s[i]*R.s[k]); if(!std::isfinite(z[i])) fin=false; } }
		LMat M; if(!fin||!linv(Minv,M)){ count("unrecoverable"); return; }
		ld cond=0,nm=0; for(int i=0;i<n;i++){ ld a=0,b=0; for(int j=0;j<n;j++){ a+=fabsl(M[i][j]); b+=fabsl(Minv[i][j]); } nm=std::max(nm,a); cond=std::max(cond,b); } cond*=nm;
		if(cond>1e6) { count("illconditioned"); return; }
		Fac f=blocklu(M,bs); ld lm=1,am=0; for(auto&r:A) for(ld x:r) am=std::max(am,fabsl(x)); for(auto&r:f.L) for(ld x:r) lm=std::max(lm,fabsl(x)); for(auto&r:f.U) for(ld x:r) if(!(fabsl(x)<1e8*am)) lm=1e30L;
		if(lm>1e4) { count("illconditioned"); return; }
		ld mag,ref=remainder(A,m,f.L,f.U,&mag); double got=pi.prec_remainder_norm();
		REQUIRE(fabsl(got-ref)<=1e-14L*cond*mag*lm*n+1e-8L*mag,"final remainder norm reported as %.15g, true value %.15Lg",got,ref); count("final_norms");
		ld la=0,lmn=1e30L,ua=0,umn=1e30L;
		for(int i=0;i<n;i++){ ld l=0,u=0; for(int j=0;j<n;j++){ if(j/bs<i/bs) l+=fabsl(f.L[i][j]); else if(j!=i && (j/bs==i/bs|| j/bs>i/bs)) u+=fabsl(f.U[i][j]); } l=1-l; u=1-u/fabsl(f.U[i][i]); la+=l; ua+=u; lmn=std::min(lmn,l); umn=std::min(umn,u); }
		la/=n; ua/=n;
		auto near=[&](double got,ld ref,const char*w){ REQUIRE(fabsl(got-ref)<=(1e-7L+1e-13L*cond*lm)*(1+fabsl(ref))*n,"%s reported as %.12g, true value %.12Lg",w,got,ref); };
		near(pi.lower_avg_diag_dom(),la,"average diagonal dominance of L"); near(pi.lower_min_diag_dom(),lmn,"minimum diagonal dominance of L"); near(pi.upper_avg_diag_dom(),ua,"average diagonal dominance of U"); near(pi.upper_min_diag_dom(),umn,"minimum diagonal dominance of U"); count("dominance_checks");
	}
	// requesting diagnostics does not change the preconditioner
	if(how==0||how==1){ s.info=false; auto q=make(m,s); apply_sched(sc); q->compute(); DBuf r=genvec(g,n); if(how==0&&sc.T==1){ } chk(*p,R,r,"ILU with diagnostics"); if(s.type!="ilu0"||sc.T==1) chk(*q,R,r,"ILU without diagnostics"); }
}
static void fam_initzero(Case&c){ // P23, scalar init_zero: the reported initial remainder must be that of zero factors
	Rng&g=c.rng; bool scale=g.chance(0.5); GenOpt o; o.posdiag=scale; o.maxb=10; SM m=genmat(g,o,&c); IluRef R=iluref(m,scale);
	Set s; s.scale=scale; s.fi=INIT_F_ZERO; s.info=true; s.type="seqilu0"; auto p=make(m,s); PrecInfo pi=p->compute();
	int n=m.n(); LMat A=dense(m); ld ref=0,orig; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ A[i][j]*=R.s[i]*R.s[j]; ref+=fabsl(A[i][j]); }
	LMat L=lmat(n,n),U=lmat(n,n); for(int i=0;i<n;i++){ L[i][i]=1; for(int j=0;j<n;j++) (j<i?L:U)[i][j]=A[i][j]; } ld mag; orig=remainder(A,m,L,U,&mag);
	double got=pi.prec_rem_initial_norm();
	if(fabsl(got-ref)<=1e-10L*ref) return;
	if(fabsl(got-orig)<=1e-9L*mag) FAIL("FINDING scalar-init-zero: scalar ILU with zero initial factors reports the remainder of the original matrix as initial guess (%.12g instead of %.12Lg)",got,ref);
	FAIL("scalar ILU with zero initial factors reports initial remainder %.12g, true %.12Lg (original: %.12Lg)",got,ref,orig);
}
int main(int argc,char**argv){
	return run(argc,argv,{{"seq",fam_seq,900,9000},{"async",fam_async,600,8000},{"apply",fam_apply,600,8000},{"diag",fam_diag,600,6000},{"initzero",fam_initzero,20,100},{"seqL",large(fam_seq),40,400},{"asyncL",large(fam_async),40,400},{"applyL",large(fam_apply),40,400}});
}
