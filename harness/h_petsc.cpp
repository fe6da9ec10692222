// P25 the PETSc interface, driven by a stand-in for PETSc that accounts for every object it hands out
#include <petscksp.h>
#include "lib.hpp"
#include <sys/wait.h>
#include "blasted_petsc.cpp"
using namespace hx;
typedef PetscErrorCode(*RichFn)(PC,Vec,Vec,Vec,PetscReal,PetscReal,PetscReal,PetscInt,PetscBool,PetscInt*,PCRichardsonConvergedReason*);
struct _p_PetscObject { std::string type; virtual ~_p_PetscObject(){} };
struct _p_KSP;
struct _p_PC : _p_PetscObject { Mat A=nullptr; bool up=false; void*ctx=nullptr; std::string name; PetscErrorCode(*fsetup)(PC)=nullptr; PetscErrorCode(*fapply)(PC,Vec,Vec)=nullptr; PetscErrorCode(*fdestroy)(PC)=nullptr; RichFn frich=nullptr; std::vector<KSP> sub; };
struct _p_KSP : _p_PetscObject { PC pc=nullptr; Mat A=nullptr; };
struct MockMat { SM m; std::string type; int bsprop=1; bool hasdiag=true; Mat_SeqAIJ aij; Mat_SeqBAIJ baij; int begun=0; };
struct _p_Vec { DBuf v; int out=0, outread=0; int first=0; };
static MockMat&mm(Mat A){ return *(MockMat*)A->mock; }
static int g_errors=0; static std::string g_mock;   // misuse of the stand-in by the code under test
static void misuse(const std::string&s){ if(g_mock.empty()) g_mock=s; }
static std::map<std::string,std::string> g_opt;
static const std::string* opt(const char*n){ auto it=g_opt.find(n); return it==g_opt.end()?nullptr:&it->second; }
static PC shell(PC pc,const char*f){ if(pc->type!="shell") misuse(std::string(f)+" on a preconditioner that is not a shell"); return pc; }
// a call of PETSc that is made to fail: the options routines claim to have found the option, as PETSc does for a malformed one
static int g_ncall=0,g_failat=0,g_failcode=0; static std::string g_failed; static bool g_reccalls=false; static std::vector<std::string> g_calls;
static int tick(const char*f){ g_ncall++; if(g_reccalls) g_calls.push_back(f); if(g_ncall==g_failat){ g_failed=f; return g_failcode; } return 0; }
extern "C" {
PetscErrorCode MockError(int code,const char*,...){ g_errors++; return code; }
int MPI_Comm_size(MPI_Comm,int*n){ *n=1; return 0; } int MPI_Comm_rank(MPI_Comm,int*n){ *n=0; return 0; } int MPI_Barrier(MPI_Comm){ return 0; }
PetscErrorCode PetscPrintf(MPI_Comm,const char*,...){ return 0; }
PetscErrorCode PetscObjectTypeCompare(PetscObject o,const char*t,PetscBool*b){ if(int e_=tick("PetscObjectTypeCompare")) return e_; *b= o->type==t?PETSC_TRUE:PETSC_FALSE; return 0; }
PetscErrorCode PetscObjectGetComm(PetscObject,MPI_Comm*c){ if(int e_=tick("PetscObjectGetComm")) return e_; *c=PETSC_COMM_SELF; return 0; }
PetscErrorCode PetscOptionsHasName(PetscOptions,const char*,const char*n,PetscBool*s){ if(int e_=tick("PetscOptionsHasName")) { if(s) *s=PETSC_TRUE; return e_; } *s=opt(n)?PETSC_TRUE:PETSC_FALSE; return 0; }
PetscErrorCode PetscOptionsGetInt(PetscOptions,const char*,const char*n,PetscInt*v,PetscBool*s){ if(int e_=tick("PetscOptionsGetInt")) { if(s) *s=PETSC_TRUE; return e_; } auto o=opt(n); if(s) *s=o?PETSC_TRUE:PETSC_FALSE; if(o) *v=atoi(o->c_str()); return 0; }
PetscErrorCode PetscOptionsGetReal(PetscOptions,const char*,const char*n,PetscReal*v,PetscBool*s){ if(int e_=tick("PetscOptionsGetReal")) { if(s) *s=PETSC_TRUE; return e_; } auto o=opt(n); if(s) *s=o?PETSC_TRUE:PETSC_FALSE; if(o) *v=atof(o->c_str()); return 0; }
PetscErrorCode PetscOptionsGetBool(PetscOptions,const char*,const char*n,PetscBool*v,PetscBool*s){ if(int e_=tick("PetscOptionsGetBool")) { if(s) *s=PETSC_TRUE; return e_; } auto o=opt(n); if(s) *s=o?PETSC_TRUE:PETSC_FALSE; if(o) *v=(o->empty()||*o=="1"||*o=="true"||*o=="yes")?PETSC_TRUE:PETSC_FALSE; return 0; }
PetscErrorCode PetscOptionsGetString(PetscOptions,const char*,const char*n,char*v,unsigned long len,PetscBool*s){ if(int e_=tick("PetscOptionsGetString")) { if(s) *s=PETSC_TRUE; return e_; } auto o=opt(n); if(s) *s=o?PETSC_TRUE:PETSC_FALSE; if(o&&len){ memset(v,0,len); strncpy(v,o->c_str(),len-1); } return 0; }
PetscErrorCode PetscOptionsGetIntArray(PetscOptions,const char*,const char*n,PetscInt*v,PetscInt*nmax,PetscBool*s){ if(int e_=tick("PetscOptionsGetIntArray")) { if(s) *s=PETSC_TRUE; return e_; } auto o=opt(n); if(s) *s=o?PETSC_TRUE:PETSC_FALSE; int k=0; if(o){ const char*p=o->c_str(); while(*p&&k<*nmax){ v[k++]=(int)strtol(p,(char**)&p,10); if(*p==',') p++; } *nmax=k; } else *nmax=0; return 0; }
PetscErrorCode KSPGetPC(KSP k,PC*p){ if(int e_=tick("KSPGetPC")) return e_; *p=k->pc; return 0; } PetscErrorCode KSPSetUp(KSP k){ if(int e_=tick("KSPSetUp")) return e_; return PCSetUp(k->pc); } PetscErrorCode KSPGetOperators(KSP k,Mat*a,Mat*p){ if(int e_=tick("KSPGetOperators")) return e_; if(a) *a=k->A; if(p) *p=k->A; return 0; }
PetscErrorCode PCSetUp(PC p){ if(int e_=tick("PCSetUp")) return e_; p->up=true; return 0; } PetscErrorCode PCGetOperators(PC p,Mat*a,Mat*b){ if(int e_=tick("PCGetOperators")) return e_; if(a) *a=p->A; if(b) *b=p->A; return 0; } PetscErrorCode PCGetType(PC p,PCType*t){ if(int e_=tick("PCGetType")) return e_; *t=p->type.c_str(); return 0; }
static PetscErrorCode subs(PC p,const char*t,PetscInt*n,PetscInt*f,KSP**s){ if(int e_=tick("subs")) return e_; if(p->type!=t) misuse(std::string("sub-solvers asked as ")+t+" of "+p->type); if(!p->up) misuse("sub-solvers asked before the set-up"); if(n) *n=(int)p->sub.size(); if(f) *f=0; if(s) *s=p->sub.data(); return 0; }
PetscErrorCode PCBJacobiGetSubKSP(PC p,PetscInt*n,PetscInt*f,KSP**s){ if(int e_=tick("PCBJacobiGetSubKSP")) return e_; return subs(p,"bjacobi",n,f,s); } PetscErrorCode PCASMGetSubKSP(PC p,PetscInt*n,PetscInt*f,KSP**s){ if(int e_=tick("PCASMGetSubKSP")) return e_; return subs(p,"asm",n,f,s); }
static bool ismg(PC p){ bool m=p->type=="mg"||p->type=="gamg"; if(!m) misuse("multigrid query of "+p->type); if(!p->up) misuse("levels asked before the set-up"); return m; }
PetscErrorCode PCMGGetLevels(PC p,PetscInt*n){ if(int e_=tick("PCMGGetLevels")) return e_; ismg(p); *n=(int)p->sub.size(); return 0; }
PetscErrorCode PCMGGetSmoother(PC p,PetscInt l,KSP*k){ if(int e_=tick("PCMGGetSmoother")) return e_; ismg(p); if(l<0||l>=(int)p->sub.size()){ misuse("level out of range"); return 63; } *k=p->sub[l]; return 0; }
PetscErrorCode PCMGGetSmootherUp(PC p,PetscInt l,KSP*k){ if(int e_=tick("PCMGGetSmootherUp")) return e_; return PCMGGetSmoother(p,l,k); } PetscErrorCode PCMGGetSmootherDown(PC p,PetscInt l,KSP*k){ if(int e_=tick("PCMGGetSmootherDown")) return e_; return PCMGGetSmoother(p,l,k); }
PetscErrorCode PCMGGetCoarseSolve(PC p,KSP*k){ if(int e_=tick("PCMGGetCoarseSolve")) return e_; return PCMGGetSmoother(p,0,k); }
PetscErrorCode PCKSPGetKSP(PC p,KSP*k){ if(int e_=tick("PCKSPGetKSP")) return e_; if(p->type!="ksp") misuse("inner solver of "+p->type); *k=p->sub[0]; return 0; }
PetscErrorCode PCShellSetContext(PC p,void*c){ if(int e_=tick("PCShellSetContext")) return e_; shell(p,"PCShellSetContext")->ctx=c; return 0; } PetscErrorCode PCShellGetContext(PC p,void*c){ if(int e_=tick("PCShellGetContext")) return e_; *(void**)c=shell(p,"PCShellGetContext")->ctx; return 0; }
PetscErrorCode PCShellSetName(PC p,const char*n){ if(int e_=tick("PCShellSetName")) return e_; shell(p,"PCShellSetName")->name=n; return 0; } PetscErrorCode PCShellGetName(PC p,const char**n){ if(int e_=tick("PCShellGetName")) return e_; *n=p->name.c_str(); return 0; }
PetscErrorCode PCShellSetSetUp(PC p,PetscErrorCode(*f)(PC)){ if(int e_=tick("PCShellSetSetUp")) return e_; shell(p,"PCShellSetSetUp")->fsetup=f; return 0; } PetscErrorCode PCShellSetApply(PC p,PetscErrorCode(*f)(PC,Vec,Vec)){ if(int e_=tick("PCShellSetApply")) return e_; shell(p,"PCShellSetApply")->fapply=f; return 0; } PetscErrorCode PCShellSetDestroy(PC p,PetscErrorCode(*f)(PC)){ if(int e_=tick("PCShellSetDestroy")) return e_; shell(p,"PCShellSetDestroy")->fdestroy=f; return 0; }
PetscErrorCode PCShellSetApplyRichardson(PC p,RichFn f){ if(int e_=tick("PCShellSetApplyRichardson")) return e_; shell(p,"PCShellSetApplyRichardson")->frich=f; return 0; }
PetscErrorCode MatGetOwnershipRange(Mat A,PetscInt*a,PetscInt*b){ if(int e_=tick("MatGetOwnershipRange")) return e_; *a=mm(A).begun; *b=mm(A).begun+mm(A).m.n(); return 0; } PetscErrorCode MatGetLocalSize(Mat A,PetscInt*a,PetscInt*b){ if(int e_=tick("MatGetLocalSize")) return e_; *a=*b=mm(A).m.n(); return 0; } PetscErrorCode MatGetSize(Mat A,PetscInt*a,PetscInt*b){ if(int e_=tick("MatGetSize")) return e_; *a=*b=mm(A).m.n(); return 0; }
PetscErrorCode MatGetBlockSize(Mat A,PetscInt*b){ if(int e_=tick("MatGetBlockSize")) return e_; *b=mm(A).bsprop; return 0; } PetscErrorCode MatGetType(Mat A,MatType*t){ if(int e_=tick("MatGetType")) return e_; *t=mm(A).type.c_str(); return 0; }
// as PETSc does, the positions of the diagonal are only computed here
PetscErrorCode MatMissingDiagonal(Mat A,PetscBool*miss,PetscInt*row){ if(int e_=tick("MatMissingDiagonal")) return e_; MockMat&M=mm(A); *miss=PETSC_FALSE; for(int i=0;i<M.m.nb;i++) if(M.m.di[i]<0){ *miss=PETSC_TRUE; if(row) *row=i; return 0; } if(M.type.find("baij")!=std::string::npos) M.baij.diag=M.m.di.p; else M.aij.diag=M.m.di.p; return 0; }
PetscErrorCode VecGetOwnershipRange(Vec v,PetscInt*a,PetscInt*b){ if(int e_=tick("VecGetOwnershipRange")) return e_; *a=v->first; *b=v->first+(int)v->v.n; return 0; } PetscErrorCode VecGetLocalSize(Vec v,PetscInt*n){ if(int e_=tick("VecGetLocalSize")) return e_; *n=(int)v->v.n; return 0; } PetscErrorCode VecGetSize(Vec v,PetscInt*n){ if(int e_=tick("VecGetSize")) return e_; *n=(int)v->v.n; return 0; }
PetscErrorCode VecSet(Vec v,PetscScalar x){ if(int e_=tick("VecSet")) return e_; if(v->out) misuse("vector set while its array is handed out"); for(size_t i=0;i<v->v.n;i++) v->v[i]=x; return 0; }
PetscErrorCode VecGetArray(Vec v,PetscScalar**a){ if(int e_=tick("VecGetArray")) return e_; v->out++; *a=v->v.p; return 0; } PetscErrorCode VecRestoreArray(Vec v,PetscScalar**a){ if(int e_=tick("VecRestoreArray")) return e_; if(v->out<=0||*a!=v->v.p) misuse("wrong array given back"); v->out--; *a=nullptr; return 0; }
PetscErrorCode VecGetArrayRead(Vec v,const PetscScalar**a){ if(int e_=tick("VecGetArrayRead")) return e_; v->outread++; *a=v->v.p; return 0; } PetscErrorCode VecRestoreArrayRead(Vec v,const PetscScalar**a){ if(int e_=tick("VecRestoreArrayRead")) return e_; if(v->outread<=0||*a!=v->v.p) misuse("wrong array given back"); v->outread--; *a=nullptr; return 0; }
}
// ------------------------------------------------------------------ solver trees
// destruction of a solver whose set-up stopped before its context was known has nothing to release
struct Tree { std::vector<std::unique_ptr<_p_KSP>> ksp; std::vector<std::unique_ptr<_p_PC>> pc; std::vector<std::unique_ptr<_p_Mat>> mat; std::vector<std::unique_ptr<MockMat>> mock; std::vector<PC> shells; KSP top=nullptr; bool bad=false; std::string desc;
	void destroy(){ for(auto&p:pc) if(p->fdestroy){ if(!p->ctx){ p->fdestroy=nullptr; continue; } REQUIRE(p->fdestroy(p.get())==0,"destruction of a shell preconditioner reports an error"); p->fdestroy=nullptr; } } };
struct TreeOpt { int bs=0; bool multi=true; bool blocksok=true; bool remote=false; };
static const char*AIJ[]={"seqaij","seqaijmkl"},*BAIJ[]={"seqbaij","seqbaijmkl"},*REMOTE[]={"mpiaij","mpibaij","aij","baij","mpibaijmkl","mpiaijmkl"};
static void fill(MockMat&M){ SM&m=M.m; M.aij={m.nnzb(),m.nnzb(),nullptr,m.nb,m.rp.p,m.ci.p,m.v.p,0}; M.baij={m.nnzb(),m.nnzb(),nullptr,m.nb,m.rp.p,m.ci.p,m.v.p,m.nb,m.nb,m.bs*m.bs}; }
static SM pmat(Case&c,int bs,bool sym){ GenOpt o; o.bs=bs;o.rm=false;o.sym=sym;o.posdiag=true;o.maxb=bs>1?6:10; if(c.big) o.big=bs>1?300:1500; return genmat(c.rng,o,nullptr); }
static Mat newmat(Case&c,Tree&t,bool sym,bool blocksok,bool remote){ Rng&g=c.rng; int bs= blocksok? g.pick<int>({1,1,4,5}):1; t.mock.emplace_back(new MockMat); MockMat&M=*t.mock.back(); M.m=pmat(c,bs,sym); bool baij=bs>1||(g.chance(0.1)); M.type=baij?BAIJ[g.below(2)]:AIJ[g.below(2)]; M.bsprop=baij?bs:g.pick<int>({1,1,2,4,7}); if(remote&&g.chance(0.5)){ M.type=REMOTE[g.below(6)]; }
	M.begun=g.pick<int>({0,0,17,40}); fill(M);
	t.mat.emplace_back(new _p_Mat); Mat A=t.mat.back().get(); A->mock=&M; A->data= M.type.find("baij")!=std::string::npos?(void*)&M.baij:(void*)&M.aij; return A; }
static KSP newksp(Case&c,Tree&t,int depth,bool sym,const TreeOpt&o){ Rng&g=c.rng; t.ksp.emplace_back(new _p_KSP); KSP k=t.ksp.back().get(); t.pc.emplace_back(new _p_PC); PC p=t.pc.back().get(); k->pc=p; k->type="richardson"; k->A=p->A=newmat(c,t,sym,o.blocksok,o.remote);
	static const char*kinds[]={"shell","shell","shell","bjacobi","asm","mg","gamg","ksp","lu","none","jacobi"}; p->type= depth<=0? kinds[g.below(4)<3?0:8+g.below(3)] : kinds[g.below(11)];
	int ns= p->type=="bjacobi"||p->type=="asm"? (o.multi&&g.chance(0.08)?g.pick<int>({0,2,3}):1) : p->type=="mg"||p->type=="gamg"? g.range(1,4) : p->type=="ksp"? 1:0;
	t.desc+=p->type; if(ns||p->type=="bjacobi"){ t.desc+="("; for(int i=0;i<ns;i++){ p->sub.push_back(newksp(c,t,depth-1,sym,o)); t.desc+=i+1<ns?",":""; } t.desc+=")"; }
	if((p->type=="bjacobi"||p->type=="asm")&&ns!=1) t.bad=true; if(p->type=="shell"){ if(mm(p->A).type.compare(0,3,"seq")) t.bad=true; t.shells.push_back(p); } return k; }
// ------------------------------------------------------------------ options and what they mean
struct Want { Set s; bool throws=false; };
static bool plainm(const std::string&t){ return t=="none"||t=="jacobi"||t=="level_sgs"; }
static bool afact(const std::string&t){ return t=="ilu0"||t=="sapilu0"||t=="async_level_ilu0"; }
static const char*FI[]={"init_zero","init_original","init_sgs","init_none"},*AI[]={"init_zero","init_jacobi","init_none"};
static Set genopts(Rng&g,bool blocks,bool recorded){ Set s; static const char*names[]={"none","jacobi","gs","sgs","ilu0","seqilu0","sfilu0","sapilu0","level_sgs","async_level_ilu0","cscbgs"}; do s.type=names[g.below(11)]; while(blocks&&s.type=="cscbgs");
	s.scale=g.chance(0.5); s.info=g.chance(0.4); s.chunk=anychunk(g,g.pick<int>({1,2,3,7,400})); s.nb=g.chance(0.1)?g.range(5,30):g.range(1,4); s.na=g.chance(0.1)?g.range(5,30):g.range(1,4); s.fi=(FactInit)g.below(4); s.ai=(ApplyInit)g.below(3); if(!recorded){ if(s.fi==INIT_F_NONE) s.fi=INIT_F_ORIGINAL; if(s.ai==INIT_A_NONE) s.ai=INIT_A_ZERO; }
	if(s.type=="ilu0"||s.type=="sapilu0"||s.type=="sfilu0"){ if(g.chance(0.3)) s.nb=-1; if(g.chance(0.3)) s.na=-1; } return s; }
static void putopts(Rng&g,const Set&s){ g_opt.clear(); g_opt["-blasted_pc_type"]=s.type; bool extra=g.chance(0.3);
	if(!plainm(s.type)||extra){ g_opt["-blasted_async_sweeps"]=fmt("%d,%d",s.nb,s.na); g_opt["-blasted_async_apply_init_type"]=AI[s.ai]; g_opt["-blasted_thread_chunk_size"]=fmt("%d",s.chunk); }
	if(afact(s.type)||extra){ g_opt["-blasted_use_symmetric_scaling"]=s.scale?"true":"false"; g_opt["-blasted_async_fact_init_type"]=FI[s.fi]; }
	if(s.info) g_opt["-blasted_compute_preconditioner_info"]=g.chance(0.5)?"":"true"; else if(g.chance(0.3)) g_opt["-blasted_compute_preconditioner_info"]="0"; }
// the operator that the documentation promises for these options
static Set meaning(const Set&o){ Set s=o; s.relax=false; if(plainm(s.type)){ s.nb=s.na=1; } if(!afact(s.type)){ s.scale=false; s.fi=INIT_F_NONE; }
	if(s.type=="ilu0"||s.type=="sapilu0"||s.type=="sfilu0"){ bool sb=s.nb<0||s.type=="sfilu0", sa=s.na<0||s.type=="sapilu0"; if(s.nb<0||s.na<0) s.type= sb&&sa?"seqilu0": sb?"sfilu0":"sapilu0"; if(s.nb<0) s.nb=1; if(s.na<0) s.na=1; }
	if(s.type=="seqilu0"&&o.type!="seqilu0") s.nb=s.na=1; return s; }
// settings that a method does not use may be unset: copied as bytes
struct Seen { int prectype,bs,blockstorage,thread_chunk_size,nbuildsweeps,napplysweeps,fact_inittype,apply_inittype; unsigned char scale,compute_precinfo; template<class A,class B> static void put(A&a,const B&b){ static_assert(sizeof(A)==sizeof(B),""); memcpy(&a,&b,sizeof a); }
	explicit Seen(const AsyncSolverSettings&q){ put(prectype,q.prectype); put(bs,q.bs); put(blockstorage,q.blockstorage); put(thread_chunk_size,q.thread_chunk_size); put(nbuildsweeps,q.nbuildsweeps); put(napplysweeps,q.napplysweeps); put(fact_inittype,q.fact_inittype); put(apply_inittype,q.apply_inittype); put(scale,q.scale); put(compute_precinfo,q.compute_precinfo); } };
// an operator that takes a known amount of processor time, to see what the interface reports about time
static double g_burn=0; static void burn(){ if(g_burn<=0) return; double t0=(double)clock()/CLOCKS_PER_SEC; while((double)clock()/CLOCKS_PER_SEC-t0<g_burn){} }
struct Slow : SRPreconditioner<double,int> { std::unique_ptr<SRPreconditioner<double,int>> in; Slow(SRMatrixStorage<const double,const int>&&m,SRPreconditioner<double,int>*p):SRPreconditioner<double,int>(std::move(m)),in(p){}
	int dim() const override { return in->dim(); } bool relaxationAvailable() const override { return in->relaxationAvailable(); } PrecInfo compute() override { burn(); return in->compute(); } void apply(const double*r,double*__restrict z) const override { burn(); in->apply(r,z); }
	void apply_relax(const double*r,double*__restrict z) const override { burn(); in->setApplyParams(solveparams); in->apply_relax(r,z); } };
struct Recorder : FactoryBase<double,int> { SRFactory<double,int> real; bool slow=false; mutable std::vector<Seen> seen; mutable std::vector<const void*> vals;
	BlastedSolverType solverTypeFromString(const std::string t) const override { return real.solverTypeFromString(t); }
	SRPreconditioner<double,int>* create_preconditioner(SRMatrixStorage<const double,const int>&&m,const SolverSettings&s) const override { seen.push_back(Seen(dynamic_cast<const AsyncSolverSettings&>(s))); vals.push_back(&m.vals[0]); if(slow){ CStore w(&m.browptr[0],&m.bcolind[0],&m.vals[0],&m.diagind[0],&m.browendptr[0],m.nbrows,m.nnzb,m.nbstored,((const AsyncSolverSettings&)s).bs); return new Slow(std::move(w),real.create_preconditioner(std::move(m),s)); } return real.create_preconditioner(std::move(m),s); } };
static double wall(){ struct timeval t; gettimeofday(&t,NULL); return t.tv_sec+t.tv_usec*1e-6; } static double cpu(){ return (double)clock()/CLOCKS_PER_SEC; }
// what one call of the interface adds to the reported times must lie within the time the call took
struct Watch { double w0,c0; Watch():w0(wall()),c0(cpu()){} void check(double dw,double dc,const char*what) const { double W=wall()-w0, C=cpu()-c0; REQUIRE(dw>=-1e-3&&dw<=W+2e-3,"%s adds %.6g s to the wall time, the call took %.6g s",what,dw,W); REQUIRE(dc>=-1e-3&&dc<=C+2e-3,"%s adds %.6g s to the processor time, the call took %.6g s",what,dc,C);
	if(g_burn>0){ REQUIRE(dw>=0.5*g_burn&&dc>=0.5*g_burn,"%s adds %.6g s wall, %.6g s processor time for an operator that took %.6g s",what,dw,dc,g_burn); count("timed_calls"); } } };
static void same(const double*a,const double*b,int n,const std::string&what){ for(int i=0;i<n;i++) if(memcmp(a+i,b+i,8)!=0 && !(a[i]!=a[i]&&b[i]!=b[i])) FAIL("%s: component %d is %.17g, expected %.17g",what.c_str(),i,a[i],b[i]); }
static void nomisuse(){ REQUIRE(g_mock.empty(),"PETSc misused: %s",g_mock.c_str()); }
// values left in memory by earlier calls must not matter
static void __attribute__((noinline)) dirty(uint64_t seed){ volatile uint64_t b[512]; for(int i=0;i<512;i++) b[i]=seed%3==0?~0ull:seed*(i+1); (void)b[seed&511]; }
static void newvals(Rng&g,SM&m){ std::vector<double> sum(m.n(),0); double mg=1.2+g.uni(); for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) for(int r=0;r<m.bs;r++) for(int q=0;q<m.bs;q++){ if(m.ci[j]==i&&r==q) continue; double x=g.sym()*3; m.at(j,r,q)=x; sum[i*m.bs+r]+=std::fabs(x); } for(int i=0;i<m.nb;i++) for(int r=0;r<m.bs;r++) m.at(m.di[i],r,r)=mg*sum[i*m.bs+r]+0.5+g.uni(); }
static void times(Blasted_data_list&l){ double f=0,a=0,fc=0,ac=0; int n=0; for(Blasted_data*p=l.ctxlist;p;p=p->next){ f+=p->factorwalltime; a+=p->applywalltime; fc+=p->factorcputime; ac+=p->applycputime; REQUIRE(p->factorcputime>=0&&p->applycputime>=0,"negative processor time"); n++; }
	for(int k=0;k<2;k++) computeTotalTimes(&l); auto eq=[](double x,double y){ return std::fabs(x-y)<=1e-12*(1+std::fabs(x)); }; REQUIRE(eq(l.factorwalltime,f)&&eq(l.applywalltime,a)&&eq(l.factorcputime,fc)&&eq(l.applycputime,ac),"total times differ from the sums over %d contexts",n); REQUIRE(n==l.size,"list of %d contexts reports %d",n,l.size); }

static void body(Case&c){
	Rng&g=c.rng; c.desc.clear(); g_mock.clear(); g_errors=0; bool blocks=g.chance(0.5); bool custom=g.chance(0.5); Set o=genopts(g,blocks,false); Set w=meaning(o); bool sym=w.type.find("level")!=std::string::npos; putopts(g,o);
	int kind=g.below(10); TreeOpt to; to.blocksok=blocks; to.multi=kind==0; to.remote=kind==1; Tree t; t.top=newksp(c,t,c.big?1:g.below(4),sym,to); Sched sc=gensched(g,4); c.note("tree "+t.desc+(custom?" own-factory ":" ")+setdesc(w)+" from "+setdesc(o)+" "+sdesc(sc));
	Recorder rec; rec.slow=custom&&!c.big&&g.chance(0.06); g_burn=0; dirty(g.next()); Blasted_data_list L=newBlastedDataList(); REQUIRE(L.size==0&&!L.ctxlist&&!L.bfactory&&!L._defaultfactory,"new list not empty"); REQUIRE(L.factorcputime==0&&L.factorwalltime==0&&L.applycputime==0&&L.applywalltime==0,"times of a new list not zero");
	struct Burn { ~Burn(){ g_burn=0; } } burnreset;
	struct Fin { Tree&t; Blasted_data_list&L; bool done=false; void run(){ if(!done){ done=true; t.destroy(); destroyBlastedDataList(&L); } } ~Fin(){ try{ run(); }catch(...){} } } fin{t,L};
	dirty(g.next()); int err= custom? blasted::setup_blasted_stack_ext(t.top,rec,&L) : setup_blasted_stack(t.top,&L);
	nomisuse();
	if(t.bad){ REQUIRE(err!=0,"unsupported solver tree %s accepted",t.desc.c_str()); count("refused_trees"); return; }
	REQUIRE(err==0,"set-up of %s reports error %d",t.desc.c_str(),err);
	REQUIRE(L.size==(int)t.shells.size(),"%zu shell preconditioners, %d contexts",t.shells.size(),L.size);
	std::set<void*> ctxs,inlist; for(Blasted_data*p=L.ctxlist;p;p=p->next) inlist.insert(p);
	for(auto&p:t.pc) if(p->type!="shell") REQUIRE(!p->ctx&&!p->fsetup&&!p->fapply,"preconditioner %s was taken over",p->type.c_str());
	for(PC p:t.shells){ REQUIRE(p->ctx&&inlist.count(p->ctx),"a shell preconditioner has no context of the list"); REQUIRE(ctxs.insert(p->ctx).second,"two shell preconditioners share a context"); REQUIRE(p->fsetup&&p->fapply&&p->fdestroy,"functions of a shell preconditioner not set"); }
	if(t.shells.empty()){ c.trivial=true; return; }
	struct Side { std::unique_ptr<Prec> ref; int computed=0; std::vector<PrecInfo> infos; }; std::map<PC,Side> sides;
	int steps=g.range(1,3)*(int)t.shells.size()+g.below(4); bool ilu=w.type.find("ilu")!=std::string::npos;
	for(int k=0;k<steps;k++){
		PC p= k<(int)t.shells.size()? t.shells[k] : t.shells[g.below((int)t.shells.size())]; MockMat&M=mm(p->A); SM&m=M.m; int n=m.n(); Side&S=sides[p]; Blasted_data*d=(Blasted_data*)p->ctx;
		if(!S.computed||g.chance(0.4)){ if(S.computed&&g.chance(0.8)) newvals(g,m); double aw=d->applycputime; uint64_t sd=g.next(); sc.seed=sd; size_t before=rec.seen.size(); dirty(g.next()); apply_sched(sc); g_burn=rec.slow?2e-3:0; bool first=!S.computed; double fw0=first?0:d->factorwalltime,fc0=first?0:d->factorcputime; Watch wt; err=p->fsetup(p); REQUIRE(err==0,"computation reports error %d",err); wt.check(d->factorwalltime-fw0,d->factorcputime-fc0,"a computation"); nomisuse();
			Set ws=w; if(!S.ref){ S.ref=make(m,ws);
				if(custom){ REQUIRE(rec.seen.size()==before+1,"the given factory was asked for %zu operators at the first computation",rec.seen.size()-before); const Seen&q=rec.seen.back(); REQUIRE(rec.vals.back()==m.v.p,"the operator is not built on the matrix of its solver"); AsyncSolverSettings e=settings(m,ws);
					REQUIRE(q.prectype==e.prectype,"method %d asked of the factory, expected %d",q.prectype,e.prectype); REQUIRE(q.bs==e.bs,"block size %d asked of the factory, expected %d",q.bs,e.bs); REQUIRE(m.bs==1||q.blockstorage==ColMajor,"block layout"); REQUIRE(q.compute_precinfo==e.compute_precinfo,"diagnostics %d",q.compute_precinfo);
					if(!plainm(w.type)){ REQUIRE(q.thread_chunk_size==e.thread_chunk_size,"chunk size %d",q.thread_chunk_size); REQUIRE(q.nbuildsweeps==e.nbuildsweeps&&q.napplysweeps==e.napplysweeps,"sweeps %d,%d",q.nbuildsweeps,q.napplysweeps); REQUIRE(q.apply_inittype==e.apply_inittype,"initial guess of the application %d",q.apply_inittype); }
					if(afact(w.type)){ REQUIRE(q.scale==e.scale,"scaling %d",q.scale); REQUIRE(q.fact_inittype==e.fact_inittype,"initial factors %d",q.fact_inittype); } count("settings_compared"); } }
			else if(custom) REQUIRE(rec.seen.size()==before,"a recomputation asked for a new operator");
			apply_sched(sc); PrecInfo pi=S.ref->compute(); S.infos.push_back(pi); S.computed++;
			if(o.info){ REQUIRE(d->infolist,"no diagnostics recorded"); auto&v=((PrecInfoList*)d->infolist)->infolist; REQUIRE(v.size()==S.infos.size(),"%zu diagnostic records after %d computations",v.size(),S.computed); if(ilu) for(size_t q=0;q<v.size();q++) for(int z=0;z<6;z++){ if(z==1&&!afact(w.type)) continue; double x=v[q].f_info[z],y=S.infos[q].f_info[z]; if(x==y||(x!=x&&y!=y)) continue; REQUIRE(std::fabs(x-y)<=1e-11*(std::fabs(x)+std::fabs(y)+1),"diagnostic %d of computation %zu is %.17g, expected %.17g",z,q,x,y); } }
			else REQUIRE(!d->infolist,"diagnostics recorded without request");
			REQUIRE(d->applycputime==aw,"computing counted as application"); REQUIRE(p->name.find(o.type)!=std::string::npos,"name of the preconditioner is %s",p->name.c_str()); count("computations"); }
		bool canrelax=S.ref->relaxationAvailable();
		if(!canrelax) REQUIRE(!p->frich,"relaxation offered to PETSc for %s, which has none",w.type.c_str()); else REQUIRE(p->frich,"no relaxation offered to PETSc for %s",w.type.c_str());
		double fw=d->factorcputime,fww=d->factorwalltime,aw0=d->applywalltime,ac0=d->applycputime; _p_Vec r,x; r.v=genvec(g,n); x.v=genvec(g,n); r.first=x.first=M.begun; DBuf rc=r.v,y=x.v; uint64_t sd=g.next(); Sched s2=sc; s2.seed=sd; RoScope rs; ro_mat(m); ro_vec(r.v,"right-hand side");
		if(canrelax&&g.chance(0.5)){ int its=g.range(1,4); bool zero=g.chance(0.5); double rt=g.pick<double>({1e-5,0,1e300}),at=g.pick<double>({1e-50,1e300}); int oi=-7; PCRichardsonConvergedReason why=PCRICHARDSON_DIVERGED_DTOL; _p_Vec wk; wk.v=DBuf(n,0.0);
			apply_sched(s2); Watch wt; err=p->frich(p,&r,&x,&wk,rt,at,1e5,its,zero?PETSC_TRUE:PETSC_FALSE,&oi,&why); wt.check(d->applywalltime-aw0,d->applycputime-ac0,"a relaxation"); REQUIRE(err==0,"relaxation reports error %d",err); SolveParams<double> sp; sp.rtol=rt; sp.atol=at; sp.dtol=1e5; sp.ctol=false; sp.maxits=its; S.ref->setApplyParams(sp); if(zero) for(int i=0;i<n;i++) y[i]=0; apply_sched(s2); S.ref->apply_relax(rc.p,y.p);
			same(x.v.p,y.p,n,w.type+" relaxation through PETSc"); REQUIRE(oi==its,"%d iterations reported, %d asked",oi,its); REQUIRE((int)why>0,"divergence reported"); REQUIRE(wk.out==0&&wk.outread==0,"work array kept"); count("relaxations"); }
		else { if(w.type!="gs"){ for(int i=0;i<n;i++) y[i]=x.v[i]; } apply_sched(s2); Watch wt; err=p->fapply(p,&r,&x); wt.check(d->applywalltime-aw0,d->applycputime-ac0,"an application"); REQUIRE(err==0,"application reports error %d",err); apply_sched(s2); S.ref->apply(rc.p,y.p); same(x.v.p,y.p,n,w.type+" application through PETSc"); count("applications"); }
		REQUIRE(r.out==0&&r.outread==0&&x.out==0&&x.outread==0,"borrowed arrays not given back"); REQUIRE(r.v==rc,"right-hand side changed"); REQUIRE(d->factorcputime==fw&&d->factorwalltime==fww,"application counted as computation"); nomisuse();
	}
	if(custom) REQUIRE(rec.seen.size()==t.shells.size(),"%zu operators for %zu preconditioners",rec.seen.size(),t.shells.size());
	times(L); fin.run(); REQUIRE(L.size==0&&!L.ctxlist,"list not empty after its destruction"); count("trees"); note_trace(c);
}
static void fam_stack(Case&c){ Rng g0=c.rng; leakcheck("PETSc interface",[&]{ c.rng=g0; body(c); }); }
// two solvers set up with one list
static void fam_twice(Case&c){
	Rng g0=c.rng; leakcheck("two solvers in one list",[&]{ c.rng=g0; Rng&g=c.rng; c.desc.clear(); g_mock.clear(); Set o=genopts(g,false,false); putopts(g,o); Set w=meaning(o); TreeOpt to; to.blocksok=false; to.multi=false; Tree a,b; a.top=newksp(c,a,g.below(3),true,to); b.top=newksp(c,b,g.below(3),true,to); c.note(a.desc+" and "+b.desc+" "+setdesc(w));
		Blasted_data_list L=newBlastedDataList(); REQUIRE(setup_blasted_stack(a.top,&L)==0&&setup_blasted_stack(b.top,&L)==0,"set-up reports an error"); REQUIRE(L.size==(int)(a.shells.size()+b.shells.size()),"%d contexts",L.size);
		for(Tree*t:{&a,&b}) for(PC p:t->shells){ REQUIRE(p->fsetup(p)==0,"computation reports an error"); _p_Vec r,x; int n=mm(p->A).m.n(); r.v=genvec(g,n); x.v=DBuf(n,0.0); REQUIRE(p->fapply(p,&r,&x)==0,"application reports an error"); auto ref=make(mm(p->A).m,w); ref->compute(); DBuf y=apply(*ref,r.v,0); same(x.v.p,y.p,n,w.type+" application through PETSc"); count("applications"); }
		times(L); a.destroy(); b.destroy(); destroyBlastedDataList(&L); REQUIRE(L.size==0,"list not empty"); nomisuse(); }); }
static bool S_seq(const Set&o){ std::string t=meaning(o).type; return t=="seqilu0"||t=="level_sgs"||t=="jacobi"||t=="none"; }
// incomplete or unsupported configurations; run in a child because the code may end the process
static void fam_refuse(Case&c){
	Rng&g=c.rng; g_mock.clear(); Set o; do o=genopts(g,false,false); while(plainm(o.type)); putopts(g,o); Tree t; TreeOpt to; to.blocksok=false; to.multi=false; do { t=Tree(); t.top=newksp(c,t,0,true,to); } while(t.shells.empty()); PC p=t.shells[0]; MockMat&M=mm(p->A); int kind=g.below(5); std::string why; int badrow=0,baddi=0; auto goodopt=g_opt;
	if(kind==0){ std::vector<std::string> must={"-blasted_pc_type","-blasted_async_sweeps","-blasted_async_apply_init_type","-blasted_thread_chunk_size"}; if(afact(o.type)){ must.push_back("-blasted_use_symmetric_scaling"); must.push_back("-blasted_async_fact_init_type"); } std::string k=g.pick(must); g_opt.erase(k); why="missing "+k; }
	else if(kind==1){ g_opt["-blasted_async_sweeps"]="3"; why="one sweep count"; }
	else if(kind==2){ badrow=g.below(M.m.nb); baddi=M.m.di[badrow]; M.m.di[badrow]=-1; why="missing diagonal entry"; }
	else if(kind==3){ int bs=g.pick<int>({2,6,7,9}); M.m=pmat(c,bs,true); M.type="seqbaij"; M.bsprop=bs; fill(M); p->A->data=&M.baij; why=fmt("block size %d",bs); }
	else { std::string&s=g_opt[g.chance(0.5)?"-blasted_pc_type":"-blasted_async_apply_init_type"]; s+="x"; why="unknown name "+s; }
	c.note(why+" "+setdesc(o)); fflush(stdout);
	pid_t pid=fork(); if(pid==0){ for(int q=0;q<3;q++) if(q!=2) close(q); int dn=open("/dev/null",O_WRONLY); dup2(dn,1); int rc=3; Blasted_data_list L=newBlastedDataList(); auto once=[&]{ try{ return p->fsetup(p)!=0; } catch(const std::exception&){ return true; } }; try{ rc= setup_blasted_stack(t.top,&L)!=0? 4 : once()? 4:3; } catch(const std::exception&){ rc=4; }
		// asked again, it is refused again; with the cause removed, it works
		if(rc==4&&p->fsetup){ if(!once()) rc=5; else if(kind==2||kind==4){ if(kind==2) M.m.di[badrow]=baddi; else g_opt=goodopt; try{ if(p->fsetup(p)!=0) rc=6; }catch(const std::exception&){ rc=6; }
			if(rc==4){ int n=M.m.n(); _p_Vec r,x; r.v=genvec(g,n); x.v=DBuf(n,0.0); DBuf y=x.v; if(p->fapply(p,&r,&x)!=0) rc=6; else if(S_seq(o)){ auto ref=make(M.m,meaning(o)); ref->compute(); ref->apply(r.v.p,y.p); for(int i=0;i<n;i++) if(memcmp(&x.v[i],&y[i],8)) rc=7; } } } } _exit(rc); }
	int st=0; waitpid(pid,&st,0); bool refused= WIFEXITED(st)? WEXITSTATUS(st)==4 : (WIFSIGNALED(st)&&WTERMSIG(st)==SIGABRT); if(WIFEXITED(st)&&WEXITSTATUS(st)==5) FAIL("%s is refused at first and accepted when asked again",why.c_str()); if(WIFEXITED(st)&&(WEXITSTATUS(st)==6||WEXITSTATUS(st)==7)) FAIL("%s: with the cause removed, the set-up %s",why.c_str(),WEXITSTATUS(st)==6?"still fails":"gives another operator"); if(WIFEXITED(st)&&WEXITSTATUS(st)!=3&&WEXITSTATUS(st)!=4) FAIL("%s ended with status %d",why.c_str(),WEXITSTATUS(st)); REQUIRE(refused,"%s was not refused",why.c_str()); count("refusals"); }
// every call of PETSc in turn fails once: the failure must surface from the call of the interface in which it happened, and a computation,
// application or relaxation that failed can be repeated with the result it would have had
struct Play { std::vector<std::vector<double>> out; int ncalls=0; std::string where; };
static void play(Case&c,Rng g,const Set&o,const TreeOpt&to,int depth,int failat,int code,const Play*want,Play&got,std::string*desc){
	g_mock.clear(); g_errors=0; putopts(g,o); Set w=meaning(o); bool sym=w.type.find("level")!=std::string::npos; Tree t; { Rng keep=c.rng; c.rng=Rng(g.next()); for(int q=0;;q++){ t=Tree(); t.top=newksp(c,t,q<50?depth:0,sym,to); if(!t.bad&&t.shells.size()>0&&t.shells.size()<4) break; } c.rng=keep; }
	if(desc) *desc="tree "+t.desc; Blasted_data_list L=newBlastedDataList(); g_ncall=0; g_failed.clear(); g_failat=failat; g_failcode=code; size_t k=0; int hits=0; uint64_t s0=g.next(); Sched sc=gensched(g,4);
	// one call of the interface; true: it succeeded
	auto call=[&](const char*what,const std::function<int()>&f)->bool{ bool before=!g_failed.empty(); sc.seed=hmix(s0,k++); apply_sched(sc); int e=0; bool threw=false; try{ e=f(); }catch(const std::exception&){ threw=true; } bool hit=!before&&!g_failed.empty();
		if(hit){ hits++; got.where=what; REQUIRE(e!=0||threw,"%s reports success although %s failed in it with error %d",what,g_failed.c_str(),code); return false; } REQUIRE(e==0&&!threw,"%s %s%s%s%s",what,threw?"throws":"reports an error",before?" after ":"",g_failed.c_str(),before?" had failed once":""); return true; };
	bool ok=call("the set-up of the solvers",[&]{ return setup_blasted_stack(t.top,&L); });
	if(ok) for(int round=0;round<2;round++) for(PC p:t.shells){ MockMat&M=mm(p->A); int n=M.m.n(); if(round) newvals(g,M.m); Blasted_data*d=(Blasted_data*)p->ctx; Rng gs=Rng(g.next()); bool again=gs.chance(0.5);
		if(!call("a computation",[&]{ return p->fsetup(p); })){ if(again) dirty(gs.next()); k--; call("a repeated computation",[&]{ return p->fsetup(p); }); }
		REQUIRE((int)(d->infolist?((PrecInfoList*)d->infolist)->infolist.size():0)==(o.info?round+1:0),"%zu diagnostic records after %d computations",d->infolist?((PrecInfoList*)d->infolist)->infolist.size():0,round+1);
		for(int kind=0;kind<(p->frich?2:1);kind++){ _p_Vec r,x,wk; r.v=genvec(g,n); DBuf x0=genvec(g,n); wk.v=DBuf(n,0.0); r.first=x.first=M.begun; int oi=0; PCRichardsonConvergedReason why; bool zero=g.chance(0.5);
			auto act=[&]{ x.v=x0; return kind? p->frich(p,&r,&x,&wk,1e-5,1e-50,1e5,2,zero?PETSC_TRUE:PETSC_FALSE,&oi,&why) : p->fapply(p,&r,&x); };
			if(!call(kind?"a relaxation":"an application",act)){ r.out=r.outread=x.out=x.outread=0; k--; call("a repeated application",act); }
			REQUIRE(r.out==0&&r.outread==0&&x.out==0&&x.outread==0,"borrowed arrays not given back"); got.out.emplace_back(x.v.p,x.v.p+n); if(want){ size_t q=got.out.size()-1; REQUIRE(q<want->out.size()&&want->out[q].size()==(size_t)n,"internal: histories differ"); same(x.v.p,want->out[q].data(),n,w.type+" "+(kind?"relaxation":"application")+(g_failed.empty()?"":" after a failure of "+g_failed)); } } }
	int nc=g_ncall; g_failat=0; nomisuse(); t.destroy(); destroyBlastedDataList(&L); REQUIRE(L.size==0,"list not empty"); got.ncalls=nc; if(failat) REQUIRE(hits<=1,"internal"); if(failat&&hits) count("failures_surfaced"); }
static void fam_fault(Case&c){
	Rng g=c.rng; bool blocks=g.chance(0.5); Set o=genopts(g,blocks,false); o.nb=std::min(o.nb,4); o.na=std::min(o.na,4); TreeOpt to; to.multi=false; to.blocksok=blocks; int depth=g.below(3); uint64_t sd=g.next(); Play ref; std::string desc; c.desc.clear();
	g_calls.clear(); g_reccalls=true; struct R { ~R(){ g_reccalls=false; g_failat=0; } } rr; leakcheck("PETSc interface",[&]{ c.desc.clear(); Play q; g_calls.clear(); play(c,Rng(sd),o,to,depth,0,0,nullptr,q,&desc); ref=std::move(q); }); g_reccalls=false; std::vector<std::string> calls=g_calls; if((int)calls.size()>ref.ncalls) calls.resize(ref.ncalls);
	c.note(desc+" "+setdesc(o)); c.sig=hstr(desc+setdesc(o)); std::string base=c.desc; std::vector<int> at; std::set<std::string> seen; for(int k=1;k<=ref.ncalls;k++) if(ref.ncalls<=60||seen.insert(calls[k-1]).second||g.chance(45.0/ref.ncalls)) at.push_back(k); count("nominal_calls",ref.ncalls);
	for(int k:at){ const std::string&f=calls[k-1]; int code=g.pick<int>({55,56,62,63,76,1}); c.desc=base+fmt(" call %d of %d, %s, fails with %d",k,ref.ncalls,f.c_str(),code); 
		if(f.compare(0,12,"PetscOptions")!=0){ leakcheck("PETSc interface with a failure",[&]{ Play q; play(c,Rng(sd),o,to,depth,k,code,&ref,q,nullptr); }); REQUIRE(g_failed==f,"internal: call %d is %s, not %s",k,g_failed.c_str(),f.c_str()); count("failures"); continue; }
		// the interface may end the process over a failing option
		int fd[2]; if(pipe(fd)) abort(); fflush(stdout); pid_t pid=fork(); if(pid==0){ close(fd[0]); int dn=open("/dev/null",O_WRONLY); dup2(dn,1); std::string msg; int rc=4; try{ Play q; play(c,Rng(sd),o,to,depth,k,code,&ref,q,nullptr); }catch(const std::exception&e){ rc=3; msg=e.what(); }catch(...){ rc=3; msg="?"; } if(rc==3){ ssize_t r=write(fd[1],msg.data(),msg.size()); (void)r; } _exit(rc); }
		close(fd[1]); std::string msg; char buf[512]; ssize_t r; while((r=read(fd[0],buf,sizeof buf))>0) msg.append(buf,r); close(fd[0]); int st=0; waitpid(pid,&st,0); if(WIFEXITED(st)&&WEXITSTATUS(st)==3) FAIL("%s",msg.c_str()); bool good= WIFEXITED(st)? WEXITSTATUS(st)==4 : (WIFSIGNALED(st)&&WTERMSIG(st)==SIGABRT); REQUIRE(good,"the process ends with status %d after %s failed",st,f.c_str()); count("failures_of_options"); }
	c.desc=base; }
int main(int argc,char**argv){ return run(argc,argv,{{"stack",fam_stack,500,5000},{"twice",fam_twice,150,1500},{"refuse",fam_refuse,200,2000},{"fault",fam_fault,60,600},{"stackL",large(fam_stack),20,200}}); }
