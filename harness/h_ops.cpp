// P20 inputs are never modified, P21 race freedom: every operation of the library under the access monitors.
// Results are not judged here.
#include "lib.hpp"
#include "scmatrixdefs.hpp"
#include "coomatrix.hpp"
#include "adjacency.hpp"
#include "levelschedule.hpp"
#include "ilu_pattern.hpp"
#include "matrix_properties.hpp"
#include "reorderingscaling.hpp"
#include "solverops_ilu0.hpp"
#include "sai.hpp"
#include "blas/matvecs.hpp"
#include "blas/blas1.hpp"
#include "utils/prefix_sum.hpp"
namespace blasted {
template <typename scalar, typename index, int bs, StorageOptions stor>
void bcsc_gemv3(const CRawBSCMatrix<scalar,index> *const mat, const scalar a, const scalar *const __restrict xx, const scalar b, const scalar *const yy, scalar *const zz);
template<typename scalar,typename index,int bs,StorageOptions stor> void compute_SAI(const SRMatrixStorage<const scalar,const index>& mat,const LeftSAIPattern<index>& sp,const int chunk,const bool fullsai,SRMatrixStorage<scalar,index>& sai);
}
using namespace hx;
typedef SRMatrixStorage<double,int> Store;
#ifdef __SANITIZE_THREAD__
static const bool TSAN=true;
#else
static const bool TSAN=false;
#endif
// an output array between guard zones
static const int GUARD=16;
struct Out { DBuf b; RoScope mark; int n; const char*name; std::vector<double> g;
	Out(Rng&r,int k,double fill,const char*nm):b(k+2*GUARD,fill),n(k),name(nm){ for(int i=0;i<GUARD;i++){ b[i]=r.sym(); b[GUARD+n+i]=r.sym(); g.push_back(b[i]); g.push_back(b[GUARD+n+i]); }
		if(shim_ro_add){ shim_ro_add(b.p,GUARD*8,"memory before the output vector"); shim_ro_add(b.p+GUARD+n,GUARD*8,"memory after the output vector"); } }
	double*p(){ return b.p+GUARD; }
	void check(){ for(int i=0;i<GUARD;i++) REQUIRE(b[i]==g[2*i]&&b[GUARD+n+i]==g[2*i+1],"memory outside of the output vector was written"); count("guarded_outputs"); } };
struct Ctx { Case&c; Rng&g; Sched sc; bool ro; // ro: P20; else P21
	Ctx(Case&k,bool r):c(k),g(k.rng),ro(r){ sc=gensched(g,8); }
	void sched(){ Sched s=sc; s.seed=g.next(); s.pol=g.below(SHIM_NPOL); apply_sched(s); }
	void mode(bool strict){ if(!ro&&shim_race_mode) shim_race_mode(strict?1:2); }
	void mat(const SM&m){ ro_mat(m); if(!ro&&shim_ro_report) shim_ro_report(0); }
	void vec(const DBuf&v,const char*n){ ro_vec(v,n); }
};
struct Frozen { const SM&m; SM k; Frozen(const SM&a):m(a),k(a){} void check(){ REQUIRE(m.v==k.v&&m.ci==k.ci&&m.rp==k.rp&&m.di==k.di&&m.re==k.re,"the matrix was changed"); } };
static SM mk(Ctx&x,int bs,bool rm,bool sym=false,int maxb=0){ GenOpt o; o.bs=bs;o.rm=rm;o.sym=sym;o.posdiag=true;o.maxb=maxb?maxb:bs==1?24:bs<5?9:7; if(x.c.big&&maxb!=4){ o.big=bs==1?1500:300; if(maxb==16||maxb==5) o.big=bs==1?300:100; } return genmat(x.g,o,&x.c); }
static void setp(Prec&p,Rng&g){ SolveParams<double> sp; sp.rtol=g.chance(0.5)?1e-3:0; sp.atol=1e-300; sp.dtol=1e10; sp.ctol=g.chance(0.5); sp.maxits=g.range(1,4); p.setApplyParams(sp); }

static void op_prec(Ctx&x){
	Rng&g=x.g; static const char*T[]={"none","jacobi","gs","sgs","ilu0","seqilu0","sfilu0","sapilu0","cscbgs","level_sgs","async_level_ilu0"};
	static const bool CS[]={1,1,1,1,0,1,1,0,1,1,0}, AS[]={1,1,0,0,0,1,0,1,0,1,1}, RS[]={1,1,0,0,1,1,1,1,1,1,1};
	Shape sh=genshape(g); int k; do k=g.below(11); while((k==8&&sh.bs>1)||(TSAN&&!CS[k]));
	SM m=mk(x,sh.bs,sh.rm,k>=9); Frozen fz(m); Set s; s.type=T[k]; s.scale=g.chance(0.5); s.info=g.chance(0.4); s.chunk=anychunk(g,g.pick<int>({1,1,2,3,8})); s.nb=g.range(1,4); s.na=g.range(1,4); s.fi=(FactInit)g.below(3); s.ai=(ApplyInit)g.below(2); x.c.note(setdesc(s)); x.c.note(sdesc(x.sc));
	x.mat(m); std::unique_ptr<Prec> p=make(m,s); x.mode(CS[k]); int reps=g.chance(0.3)?2:1; for(int q=0;q<reps;q++){ x.sched(); p->compute(); }
	if(!(TSAN&&!AS[k])) for(int q=0;q<2;q++){ DBuf r=genvec(g,m.n()),rk=r; RoScope rs; x.vec(r,"right-hand side"); Out z(g,m.n(),g.sym(),"z"); x.mode(AS[k]); x.sched(); p->apply(r.p,z.p()); z.check(); REQUIRE(r==rk,"the right-hand side was changed"); }
	if(p->relaxationAvailable()&&!(TSAN&&!RS[k])){ setp(*p,g); DBuf r=genvec(g,m.n()),rk=r; RoScope rs; x.vec(r,"right-hand side"); Out z(g,m.n(),0.5,"x"); x.mode(RS[k]); x.sched(); p->apply_relax(r.p,z.p()); z.check(); REQUIRE(r==rk,"the right-hand side was changed"); }
	fz.check(); count(std::string("op_")+T[k]);
}
template<class V> static void prod(Ctx&x,const V&A,int n){
	Rng&g=x.g; for(int q=0;q<2;q++){ DBuf v=genvec(g,n),w=genvec(g,n),vk=v,wk=w; RoScope rs; x.vec(v,"vector x"); x.vec(w,"vector y"); Out z(g,n,NAN,"z"); x.sched(); A.apply(v.p,z.p()); z.check(); Out z2(g,n,NAN,"z"); x.sched(); A.gemv3(1.5,v.p,-0.5,w.p,z2.p()); z2.check(); REQUIRE(v==vk&&w==wk,"a product changed its operand");
		Out z3(g,n,1.0,"y = z"); x.sched(); A.gemv3(2,v.p,0.5,z3.p(),z3.p()); z3.check(); }
	count("op_products"); }
template<int bs,StorageOptions st> static void bview(Ctx&x){ SM m=mk(x,bs,st==RowMajor); Frozen fz(m); x.mat(m); x.mode(true); x.c.note("BSR view "+sdesc(x.sc)); BSRMatrixView<double,int,bs,st> A(wrap(m)); prod(x,A,m.n()); fz.check(); }
static SM scalarlike(Ctx&x){ return mk(x,1,false); }
template<int bs> static void owned(Ctx&x){ // owning matrices: constness is checked by copies and by monitors on their own arrays
	SM m=mk(x,bs,true); SM w=m; x.mode(true); x.c.note(fmt("BSRMatrix<%d> ",bs)+sdesc(x.sc)); BSRMatrix<double,int,bs> A(m.nb,m.rp.p,m.ci.p,m.v.p,m.di.p); Frozen fz(m); x.mat(m); prod(x,A,m.n());
	x.sched(); BSRMatrix<double,int,bs> B(A); x.sched(); A.isEqual(B,1e-12); if constexpr(bs==1){ x.sched(); A.zeroDiagonalRow(); A.getNumZeroDiagonals(); A.getDiagonalProduct(); A.getDiagonalAbsSum(); A.getAbsMinDiagonalEntry(); A.getAbsMaxDiagonalEntry(); }
	x.sched(); { const auto& v=A.getRawSRMatrix(); (void)v; } fz.check(); count("op_owned");
	// writes to the copy, in parallel, do not touch the source
	x.sched(); B.scaleAll(2.0); x.sched(); B.setDiagZero(); x.sched(); B.setAllZero(); fz.check(); }
template<int bs,StorageOptions st> static void columns(Ctx&x){ SM m=mk(x,bs,st==RowMajor); Frozen fz(m); x.mat(m); x.mode(true); x.c.note("columns "+sdesc(x.sc)); CRawBSRMatrix<double,int> r=craw(m); CRawBSCMatrix<double,int> c; x.sched(); convert_BSR_to_BSC<double,int,bs>(&r,&c); fz.check();
	Rng&g=x.g; int n=m.n(); if(!TSAN||true){ DBuf v=genvec(g,n),w=genvec(g,n); RoScope rs; x.vec(v,"vector x"); x.vec(w,"vector y"); Out z(g,n,NAN,"z"); x.sched(); bcsc_gemv3<double,int,bs,st>(&c,1.25,v.p,0.5,w.p,z.p()); z.check(); }
	alignedDestroyCRawBSCMatrix(c); fz.check(); count("op_columns"); }
static void op_struct(Ctx&x){ SM m=scalarlike(x); Frozen fz(m); x.mat(m); x.mode(true); x.c.note("structure "+sdesc(x.sc)); CRawBSRMatrix<double,int> r=craw(m); SM sy=mk(x,1,false,true); RoScope rs; x.mat(sy); CRawBSRMatrix<double,int> r2=craw(sy); Frozen f2(sy);
	x.sched(); { Store st(m.rp.p,m.ci.p,m.v.p,m.di.p,m.re.p,m.nb,m.nnzb(),m.nnzb(),1); ColumnAdjacency<double,int> ca(st); }
	x.sched(); computeLevels(&r2); x.sched(); compute_ILU_positions_CSR_CSR(&r); 
	x.sched(); { CRawBSRMatrix<double,int> l=getLowerTriangularView(r); CRawBSRMatrix<double,int> u=getUpperTriangularView(r); alignedDestroyRawBSRMatrixTriangularView(reinterpret_cast<RawBSRMatrix<double,int>&>(l)); alignedDestroyRawBSRMatrixTriangularView(reinterpret_cast<RawBSRMatrix<double,int>&>(u)); }
	fz.check(); f2.check(); count("op_structure"); }
template<int bs,StorageOptions st> static void diagdom(Ctx&x){ SM m=mk(x,bs,st==RowMajor); Frozen fz(m); x.mat(m); x.mode(true); x.c.note("diagonal dominance "+sdesc(x.sc)); x.sched(); diagonal_dominance<double,int,bs,st>(wrap(m)); fz.check(); count("op_diagdom"); }
template<int bs> static void sai(Ctx&x){ SM m=mk(x,bs,false,false,bs==1?16:5); Frozen fz(m); x.mat(m); x.mode(true); bool full=x.g.chance(0.5); int chunk=anychunk(x.g,x.g.range(1,4)); x.c.note("sai "+sdesc(x.sc)); CStore cm=wrap(m); x.sched(); LeftSAIPattern<int> sp= full? left_SAI_pattern<double,int>(wrap(m)) : left_incomplete_SAI_pattern<double,int>(wrap(m)); SM a=m; { Store stt(a.rp.p,a.ci.p,a.v.p,a.di.p,a.re.p,m.nb,m.nnzb(),m.nnzb(),bs); x.sched(); compute_SAI<double,int,bs,ColMajor>(cm,sp,chunk,full,stt); } fz.check(); count("op_sai"); }
struct PermRS : public ReorderingScaling<double,int,1> { std::vector<int> r,c; void compute(const CRawBSRMatrix<double,int>&m){ setOrdering(r.size()?r.data():nullptr,c.size()?c.data():nullptr,(int)m.nbrows); } };
template<int bs> struct VRS : public ReorderingScaling<double,int,bs> { void compute(const CRawBSRMatrix<double,int>&){} void scales(const std::vector<double>&r,const std::vector<double>&c){ this->rowscale=r; this->colscale=c; } };
static std::vector<int> shuffled(Rng&g,int n){ std::vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; for(int i=n;i>1;i--) std::swap(p[i-1],p[g.below(i)]); return p; }
static void op_rilu(Ctx&x){ Rng&g=x.g; SM m=mk(x,1,false,true,14); Frozen fz(m); PermRS rs; rs.r=shuffled(g,m.nb); rs.c=rs.r; bool tf=g.chance(0.5)&&!TSAN,ta=g.chance(0.5)&&!TSAN; x.c.note("reordered ILU "+sdesc(x.sc)); x.mat(m);
	ReorderedAsyncILU0_SRPreconditioner<double,int> p(wrap(m),&rs,g.range(1,3),g.range(1,3),g.range(1,4),(FactInit)g.below(3),(ApplyInit)g.below(2),tf,ta); x.mode(!tf); x.sched(); p.compute(); x.mode(!ta); DBuf r=genvec(g,m.n()),rk=r; x.vec(r,"right-hand side"); Out z(g,m.n(),0.0,"z"); x.sched(); p.apply(r.p,z.p()); z.check(); REQUIRE(r==rk,"the right-hand side was changed"); fz.check(); count("op_rilu"); }
template<int bs> static void op_rs(Ctx&x){ Rng&g=x.g; int n=g.range(1,bs==1?40:10); VRS<bs> rs; std::vector<int> a=shuffled(g,n),b=shuffled(g,n); rs.setOrdering(a.data(),b.data(),n); std::vector<double> r(n),c(n); for(auto&v:r) v=0.5+g.uni(); for(auto&v:c) v=0.5+g.uni(); rs.scales(r,c); x.mode(true); x.c.note(fmt("vector reordering bs=%d n=%d ",bs,n)+sdesc(x.sc));
	for(int d=0;d<2;d++) for(int mo=0;mo<2;mo++){ Out v(g,n*bs,1.5,"vector"); x.sched(); rs.applyOrdering(v.p(),mo?INVERSE:FORWARD,d?COLUMN:ROW); x.sched(); rs.applyScaling(v.p(),mo?INVERSE:FORWARD,d?COLUMN:ROW); v.check(); }
	if(x.ro) { count("op_vector_reordering"); return; }
	SM m=mk(x,bs,true,true); n=m.nb; a=shuffled(g,n); b=a; rs.setOrdering(a.data(),b.data(),n); r.assign(n,2.0); c.assign(n,0.5); rs.scales(r,c); RawBSRMatrix<double,int> w(m.rp.p,m.ci.p,m.v.p,m.di.p,m.re.p,n,m.nnzb(),m.nnzb()); x.sched(); rs.applyOrdering(w,FORWARD); x.sched(); rs.applyScaling(w,FORWARD); x.sched(); rs.applyScaling(w,INVERSE); x.sched(); rs.applyOrdering(w,INVERSE); count("op_matrix_reordering"); }
static void op_small(Ctx&x){ Rng&g=x.g; x.mode(true); x.c.note("helpers "+sdesc(x.sc)); int n=g.below(60); if(!x.ro){ IBuf a(n,1); x.sched(); prefix_sum(a.p,n); } device_vector<double> v(n); for(auto&q:v) q=g.sym(); if(shim_ro_add&&n) shim_ro_add(v.data(),n*8,"vector"); x.sched(); maxnorm(v); count("op_helpers"); }
static void op_coo(Ctx&x){ Rng&g=x.g; SM m=mk(x,1,false,false,12); x.mode(true); x.c.note("coordinate conversion "+sdesc(x.sc)); std::string f=scratch()+"/ops.mtx"; { FILE*o=fopen(f.c_str(),"w"); fprintf(o,"%%%%MatrixMarket matrix coordinate real general\n%d %d %d\n",m.nb,m.nb,m.nnzb()); for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) fprintf(o,"%d %d %.17g\n",i+1,m.ci[j]+1,m.v[j]); fclose(o); }
	COOMatrix<double,int> c; c.readMatrixMarket(f); unlink(f.c_str()); x.sched(); { RawBSRMatrix<double,int> r; (void)r; SRMatrixStorage<double,int> s=getSRMatrixFromCOO<double,int,1>(c,"rowmajor"); } count("op_coo"); }
static void runop(Ctx&x){
	switch(x.g.below(22)){
	case 0: case 1: case 2: case 3: case 4: case 5: op_prec(x); break;
	case 6: { SM m=scalarlike(x); Frozen fz(m); x.mat(m); x.mode(true); x.c.note("CSR view "+sdesc(x.sc)); CSRMatrixView<double,int> A(wrap(m)); prod(x,A,m.n()); fz.check(); } break;
	case 7: bview<3,RowMajor>(x); break; case 8: bview<4,ColMajor>(x); break; case 9: x.g.chance(0.5)?bview<5,ColMajor>(x):bview<7,RowMajor>(x); break;
	case 10: owned<1>(x); break; case 11: x.g.chance(0.5)?owned<3>(x):owned<7>(x); break;
	case 12: x.g.chance(0.5)?columns<3,ColMajor>(x):columns<7,RowMajor>(x); break;
	case 13: op_struct(x); break; case 14: x.g.chance(0.5)?diagdom<1,ColMajor>(x):diagdom<4,ColMajor>(x); break;
	case 15: sai<1>(x); break; case 16: sai<4>(x); break; case 17: op_rilu(x); break;
	case 18: op_rs<1>(x); break; case 19: x.g.chance(0.5)?op_rs<4>(x):op_rs<7>(x); break;
	case 20: op_small(x); break; default: op_coo(x); } }
static void fam_ro(Case&c){ Ctx x(c,true); runop(x); if(shim_ro_clear) shim_ro_clear(); note_trace(c); }
static void fam_race(Case&c){ Ctx x(c,false); if(x.sc.T==1) x.sc.T=2+x.g.below(7); runop(x); if(shim_ro_clear) shim_ro_clear(); note_trace(c); }
// ---------------------------------------------------------------- P22
static Store ownstore(const SM&m){ ArrayView<int> rp(m.nb+1),ci(m.nnzb()),di(m.nb),re(m.nb); ArrayView<double> v(m.nnzb()*m.bs*m.bs); for(int i=0;i<=m.nb;i++) rp[i]=m.rp[i]; for(int i=0;i<m.nnzb();i++) ci[i]=m.ci[i]; for(int i=0;i<m.nb;i++){ di[i]=m.di[i]; re[i]=m.re[i]; } for(size_t i=0;i<m.v.n;i++) v[(int)i]=m.v[i]; return Store(std::move(rp),std::move(ci),std::move(v),std::move(di),std::move(re),m.nb,m.nnzb(),m.nnzb()); }
struct Held { SM m; std::unique_ptr<Prec> p; bool own, comp=false; Set s; };
static void op_refused(Ctx&x){ Rng&g=x.g; int k=g.below(4); SRFactory<double,int> f;
	if(k==0){ int bs=g.pick<int>({2,3,6,7,9}); SM m=mk(x,bs,g.chance(0.5),false,4); Set s; AsyncSolverSettings o=settings(m,s); Prec*p=nullptr; try{ p= g.chance(0.5)? f.create_preconditioner(move_to_const(ownstore(m)),o) : f.create_preconditioner(wrap(m),o); } catch(const std::exception&){} delete p; }
	else if(k==1){ SM m=mk(x,4,false,false,4); Set s; AsyncSolverSettings o=settings(m,s); o.prectype=g.chance(0.5)?BLASTED_CSC_BGS:BLASTED_EXTERNAL; Prec*p=nullptr; try{ p=f.create_preconditioner(move_to_const(ownstore(m)),o); } catch(const std::exception&){} delete p; }
	else if(k==2){ try{ f.solverTypeFromString("nosuch"); } catch(const std::exception&){} try{ getFactInitFromString(""); } catch(const std::exception&){} try{ getApplyInitFromString("init_sgs"); } catch(const std::exception&){} }
	else { std::string fn=scratch()+"/bad.mtx"; static const char*B[]={"","%%MatrixMarket matrix coordinate real\n1 1 1\n1 1 1.0\n","%%MatrixMarket matrix coordinate real general\n3 3 4\n1 1 1.0\n","%%MatrixMarket matrix coordinate real general\n2 2 1\n5 1 2.0\n","%%MatrixMarket matrix coordinate real symmetric\n1 1 1\n1 1 1.0\n","%%MatrixMarket matrix coordinate integer general\n2 2 2\n1 1 1\n2 2 7\n","%%MatrixMarket matrix coordinate complex general\n1 1 1\n1 1 2.0 3.0\n","%%MatrixMarket matrix array real general\n2 2\n1\n2\n3\n4\n"}; { FILE*o=fopen(fn.c_str(),"w"); fputs(B[g.below(8)],o); fclose(o); } { COOMatrix<double,int> c; try{ c.readMatrixMarket(fn); } catch(const std::exception&){} } unlink(fn.c_str()); }
	count("op_refused"); }
static void op_held(Ctx&x,std::vector<std::unique_ptr<Held>>&pool){ Rng&g=x.g; int k=g.below(6);
	if(pool.empty()||k==0){ static const char*T[]={"none","jacobi","gs","sgs","ilu0","seqilu0","sfilu0","sapilu0","cscbgs","level_sgs","async_level_ilu0"}; Shape sh=genshape(g); std::unique_ptr<Held> h(new Held); do h->s.type=T[g.below(11)]; while(h->s.type=="cscbgs"&&sh.bs>1); h->m=mk(x,sh.bs,sh.rm,h->s.type.find("level")!=std::string::npos); h->s.scale=g.chance(0.5); h->s.info=g.chance(0.4); h->s.chunk=anychunk(g,g.pick<int>({1,2,5,40})); h->s.nb=g.range(1,3); h->s.na=g.range(1,3); h->s.fi=(FactInit)g.below(3); h->s.ai=(ApplyInit)g.below(2); h->own=g.chance(0.3);
		SRFactory<double,int> f; AsyncSolverSettings o=settings(h->m,h->s); h->p.reset(h->own? f.create_preconditioner(move_to_const(ownstore(h->m)),o) : f.create_preconditioner(wrap(h->m),o)); pool.push_back(std::move(h)); return; }
	Held&h=*pool[g.below((int)pool.size())];
	if(k==1){ std::swap(pool[g.below((int)pool.size())],pool.back()); pool.pop_back(); return; }
	if(k==2&&!h.own) for(double&v:h.m.v) v*=1.5;
	if(k<=3||!h.comp){ x.sched(); h.p->compute(); h.comp=true; return; }
	DBuf r=genvec(g,h.m.n()),z(h.m.n(),0.0); x.sched(); h.p->apply(r.p,z.p); if(h.p->relaxationAvailable()&&g.chance(0.5)){ setp(*h.p,g); x.sched(); h.p->apply_relax(r.p,z.p); } count("op_held"); }
template<int bs> static void op_assemble(Ctx&x){ Rng&g=x.g; SM m=mk(x,bs,true); BSRMatrix<double,int,bs> A; int n=g.range(1,3); for(int t=0;t<n;t++){ A.setStructure(m.nb,m.ci.p,m.rp.p); A.setAllZero(); for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++){ DBuf b(bs*bs,1.0); if(g.chance(0.5)) A.submitBlock(i*bs,m.ci[j]*bs,b.p,bs,bs); else A.updateBlock(i*bs,m.ci[j]*bs,b.p,bs,bs); } for(int i=0;i<m.nb;i++){ DBuf b(bs*bs,2.0); A.updateDiagBlock(i*bs,b.p,bs); } x.sched(); A.scaleAll(0.5); x.sched(); A.setDiagZero(); BSRMatrix<double,int,bs> B(A); x.sched(); B.setAllZero(); DBuf v(m.n(),1.0),z(m.n(),0.0); x.sched(); A.apply(v.p,z.p); if(g.chance(0.5)) m=mk(x,bs,true); }
	BSRMatrix<double,int,bs> C(ownstore(m)); DBuf v(m.n(),1.0),z(m.n(),0.0); C.apply(v.p,z.p); count("op_assembled"); }
static void fam_life(Case&c){ uint64_t s0=c.rng.next(); int n=c.rng.range(2,10);
	leakcheck("a sequence of operations",[&]{ Case k(s0,c.idx,c.thorough); k.big=c.big; Ctx x(k,true); std::vector<std::unique_ptr<Held>> pool; for(int i=0;i<n;i++) switch(x.g.below(6)){ case 0: case 1: case 2: op_held(x,pool); break; case 3: op_refused(x); break; case 4: switch(x.g.below(3)){ case 0: op_assemble<1>(x); break; case 1: op_assemble<3>(x); break; default: op_assemble<7>(x); } break; default: { k.desc.clear(); runop(x); if(shim_ro_clear) shim_ro_clear(); } } c.desc=k.desc.substr(0,200); c.sig=k.sig; });
	c.note(fmt("%d operations",n)); note_trace(c); }
#ifndef HX_NO_MAIN
int main(int argc,char**argv){ return run(argc,argv,{{"ro",fam_ro,1000,10000},{"race",fam_race,1000,10000},{"life",fam_life,400,4000},{"roL",large(fam_ro),60,600},{"raceL",large(fam_race),60,600},{"lifeL",large(fam_life),20,200}}); }
#endif
