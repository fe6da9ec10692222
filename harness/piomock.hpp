// Stand-in for the part of PETSc that reads of files and options need: matrices and vectors are maps of entries, every call can be made to fail
#pragma once
#include <petscksp.h>
#include <petscmat.h>
#include <petscsys.h>
#include "lib.hpp"
#include "mtxgen.hpp"
#include "utils/blasted_petsc_io.cpp"
using namespace hx;
struct MockObj { MPI_Comm comm=0; std::string type; int bs=1; int m=-1,n=-1; bool fromopt=false,up=false,rowor=true,dirty=false,begun=false,assembled=false; std::map<std::pair<int,int>,double> v; std::vector<double> x; std::vector<char> set; };
struct _p_Mat : MockObj {}; struct _p_Vec : MockObj {};
static std::set<Mat> g_mats; static std::set<Vec> g_vecs; static std::map<std::string,std::string> g_opt; static int g_mpisize=1,g_mpirank=0; static std::string g_mock; static void misuse(const std::string&s){ if(g_mock.empty()) g_mock=s; }
static int g_ncall=0,g_failat=0,g_failcode=0; static std::string g_failed; static int tick(const char*f){ g_ncall++; if(g_ncall==g_failat){ g_failed=f; return g_failcode; } return 0; }
#define TICK if(int e_=tick(__func__)) return e_;
static const std::string* opt(const char*n){ auto it=g_opt.find(n); return it==g_opt.end()?nullptr:&it->second; }
static int live(Mat A,const char*f){ if(!g_mats.count(A)){ misuse(std::string(f)+" on something that is not a matrix"); return 62; } return 0; } static int live(Vec v,const char*f){ if(!g_vecs.count(v)){ misuse(std::string(f)+" on something that is not a vector"); return 62; } return 0; }
#define LIVE(x) if(int e_=live(x,__func__)) return e_;
static const char*TEXT[]={"Out of memory","No support for this operation","Invalid argument","Argument out of range"};
static char g_specific[64]; static bool g_notext=false,g_msgfails=false;
static char*SPEC(int k){ if(k%3==0) return nullptr; snprintf(g_specific,sizeof g_specific,"specific %d",k); return g_specific; }
extern "C" {
PetscErrorCode MockError(int code,const char*,...){ return code; } PetscErrorCode PetscPrintf(MPI_Comm,const char*,...){ return 0; }
int MPI_Comm_size(MPI_Comm,int*n){ *n=g_mpisize; return 0; } int MPI_Comm_rank(MPI_Comm,int*n){ *n=g_mpirank; return 0; } int MPI_Barrier(MPI_Comm){ return 0; }
PetscErrorCode PetscErrorMessage(int k,const char**t,char**s){ if(g_msgfails) return 1; if(t) *t=g_notext?nullptr:TEXT[k%4]; if(s) *s=SPEC(k); return 0; }
// as PETSc does, an option whose value cannot be read is reported as found, along with the error
#define TICKOPT if(int e_=tick(__func__)){ if(s) *s=PETSC_TRUE; return e_; }
PetscErrorCode PetscOptionsHasName(PetscOptions,const char*,const char*n,PetscBool*s){ TICKOPT *s=opt(n)?PETSC_TRUE:PETSC_FALSE; return 0; }
PetscErrorCode PetscOptionsGetInt(PetscOptions,const char*,const char*n,PetscInt*v,PetscBool*s){ TICKOPT auto o=opt(n); if(s) *s=o?PETSC_TRUE:PETSC_FALSE; if(o) *v=atoi(o->c_str()); return 0; }
PetscErrorCode PetscOptionsGetReal(PetscOptions,const char*,const char*n,PetscReal*v,PetscBool*s){ TICKOPT auto o=opt(n); if(s) *s=o?PETSC_TRUE:PETSC_FALSE; if(o) *v=strtod(o->c_str(),0); return 0; }
PetscErrorCode PetscOptionsGetBool(PetscOptions,const char*,const char*n,PetscBool*v,PetscBool*s){ TICKOPT auto o=opt(n); if(s) *s=o?PETSC_TRUE:PETSC_FALSE; if(o) *v=(o->empty()||*o=="1"||*o=="true"||*o=="yes"||*o=="on")?PETSC_TRUE:PETSC_FALSE; return 0; }
PetscErrorCode PetscOptionsGetString(PetscOptions,const char*,const char*n,char*v,unsigned long len,PetscBool*s){ TICKOPT auto o=opt(n); if(s) *s=o?PETSC_TRUE:PETSC_FALSE; if(o&&len){ memset(v,0x55,len); size_t k=std::min<size_t>(o->size(),len-1); memcpy(v,o->data(),k); v[k]=0; } return 0; }
PetscErrorCode PetscOptionsGetIntArray(PetscOptions,const char*,const char*n,PetscInt*v,PetscInt*nmax,PetscBool*s){ TICKOPT auto o=opt(n); if(s) *s=o?PETSC_TRUE:PETSC_FALSE; int k=0; if(o){ const char*p=o->c_str(); while(*p&&k<*nmax){ char*e; v[k++]=(int)strtol(p,&e,10); p=e; if(*p==',') p++; } } *nmax=k; return 0; }
PetscErrorCode MatCreate(MPI_Comm c,Mat*A){ TICK *A=new _p_Mat; (*A)->comm=c; g_mats.insert(*A); return 0; } PetscErrorCode MatDestroy(Mat*A){ TICK if(!*A) return 0; LIVE(*A) g_mats.erase(*A); delete *A; *A=nullptr; return 0; }
PetscErrorCode MatSetType(Mat A,MatType t){ TICK LIVE(A) A->type=t; return 0; } PetscErrorCode MatSetFromOptions(Mat A){ TICK LIVE(A) A->type=opt("-mat_type")?*opt("-mat_type"):"aij"; if(auto o=opt("-mat_block_size")) A->bs=atoi(o->c_str()); A->fromopt=true; return 0; }
PetscErrorCode MatGetBlockSize(Mat A,PetscInt*b){ TICK LIVE(A) *b=A->bs; return 0; } PetscErrorCode MatSetBlockSize(Mat A,PetscInt b){ TICK LIVE(A) if(A->up&&A->bs!=b){ misuse("block size changed after the set-up"); return 73; } A->bs=b; return 0; }
PetscErrorCode MatSetSizes(Mat A,PetscInt m,PetscInt n,PetscInt M,PetscInt N){ TICK LIVE(A) if(A->up){ misuse("sizes changed after the set-up"); return 73; } if((m>=0&&M>=0&&m!=M)||(n>=0&&N>=0&&n!=N)){ misuse("local and global sizes differ on one process"); return 60; } A->m=std::max(m,M); A->n=std::max(n,N); return 0; }
PetscErrorCode MatSetUp(Mat A){ TICK LIVE(A) if(A->m<0||A->n<0){ misuse("set-up without sizes"); return 73; } if(A->m%A->bs||A->n%A->bs) return 60; A->up=true; return 0; }
PetscErrorCode MatSeqAIJSetPreallocation(Mat A,PetscInt,const PetscInt*){ return MatSetUp(A); } PetscErrorCode MatSeqBAIJSetPreallocation(Mat A,PetscInt bs,PetscInt,const PetscInt*){ if(live(A,__func__)) return 62; A->bs=bs; return MatSetUp(A); }
PetscErrorCode MatSetOption(Mat A,MatOption o,PetscBool b){ TICK LIVE(A) if(o==MAT_ROW_ORIENTED) A->rowor=b; return 0; }
static int put1(Mat A,int i,int j,double x,InsertMode md){ if(i<0||j<0) return 0; if(i>=A->m||j>=A->n) return 63; double&q=A->v[{i,j}]; q= md==ADD_VALUES? q+x:x; return 0; }
static int settable(MockObj*A,const char*f){ if(!A->up){ misuse(std::string(f)+" before the set-up"); return 73; } if(A->begun){ misuse(std::string(f)+" between the two halves of the assembly"); return 73; } A->dirty=true; return 0; }
PetscErrorCode MatSetValues(Mat A,PetscInt m,const PetscInt*r,PetscInt n,const PetscInt*c,const PetscScalar*v,InsertMode md){ TICK LIVE(A) if(int e=settable(A,"MatSetValues")) return e; for(int i=0;i<m;i++) for(int j=0;j<n;j++) if(int e=put1(A,r[i],c[j],A->rowor?v[i*n+j]:v[j*m+i],md)) return e; return 0; }
PetscErrorCode MatSetValue(Mat A,PetscInt i,PetscInt j,PetscScalar v,InsertMode md){ return MatSetValues(A,1,&i,1,&j,&v,md); }
PetscErrorCode MatSetValuesBlocked(Mat A,PetscInt m,const PetscInt*r,PetscInt n,const PetscInt*c,const PetscScalar*v,InsertMode md){ TICK LIVE(A) if(int e=settable(A,"MatSetValuesBlocked")) return e; int b=A->bs,R=m*b,C=n*b; for(int i=0;i<R;i++) for(int j=0;j<C;j++){ if(r[i/b]<0||c[j/b]<0) continue; if(int e=put1(A,r[i/b]*b+i%b,c[j/b]*b+j%b,A->rowor?v[(size_t)i*C+j]:v[(size_t)j*R+i],md)) return e; } return 0; }
PetscErrorCode MatAssemblyBegin(Mat A,MatAssemblyType){ TICK LIVE(A) A->begun=true; return 0; } PetscErrorCode MatAssemblyEnd(Mat A,MatAssemblyType t){ TICK LIVE(A) if(!A->begun){ misuse("assembly ended before its begin"); return 73; } A->begun=false; A->dirty=false; A->assembled= t==MAT_FINAL_ASSEMBLY; return 0; }
PetscErrorCode MatCreateMPIAIJWithArrays(MPI_Comm c,PetscInt m,PetscInt n,PetscInt M,PetscInt N,const PetscInt*ip,const PetscInt*jp,const PetscScalar*a,Mat*A){ TICK if(ip[0]){ misuse("row pointers do not begin with 0"); return 63; } if(m<0){ misuse("negative local size"); return 63; } int mm=m,nn=n>=0?n:N; if((M>=0&&M!=mm)||(n>=0&&N>=0&&n!=N)) return 60; *A=new _p_Mat; g_mats.insert(*A); (*A)->comm=c; (*A)->type="mpiaij"; (*A)->m=mm; (*A)->n=nn; (*A)->up=true; for(int i=0;i<m;i++) for(int k=ip[i];k<ip[i+1];k++) if(int e=put1(*A,i,jp[k],a[k],INSERT_VALUES)) return e; (*A)->assembled=true; return 0; }
PetscErrorCode VecCreate(MPI_Comm c,Vec*v){ TICK *v=new _p_Vec; (*v)->comm=c; g_vecs.insert(*v); return 0; } PetscErrorCode VecDestroy(Vec*v){ TICK if(!*v) return 0; LIVE(*v) g_vecs.erase(*v); delete *v; *v=nullptr; return 0; }
PetscErrorCode VecSetSizes(Vec v,PetscInt n,PetscInt N){ TICK LIVE(v) if(n>=0&&N>=0&&n!=N) return 60; v->n=std::max(n,N); return 0; } PetscErrorCode VecSetUp(Vec v){ TICK LIVE(v) if(v->n<0){ misuse("vector set up without a size"); return 73; } v->up=true; v->x.assign(v->n,0.0); v->set.assign(v->n,0); return 0; } PetscErrorCode VecSetFromOptions(Vec v){ return VecSetUp(v); }
PetscErrorCode MatCreateVecs(Mat A,Vec*right,Vec*left){ TICK LIVE(A) if(A->m<0||A->n<0){ misuse("vectors of a matrix without sizes"); return 73; } for(int k=0;k<2;k++){ Vec*v=k?left:right; if(!v) continue; *v=new _p_Vec; g_vecs.insert(*v); (*v)->comm=A->comm; (*v)->n=k?A->m:A->n; (*v)->up=true; (*v)->x.assign((*v)->n,0.0); (*v)->set.assign((*v)->n,0); } return 0; }
PetscErrorCode VecSetValues(Vec v,PetscInt n,const PetscInt*ix,const PetscScalar*y,InsertMode md){ TICK LIVE(v) if(int e=settable(v,"VecSetValues")) return e; for(int k=0;k<n;k++){ if(ix[k]<0) continue; if(ix[k]>=v->n) return 63; double&q=v->x[ix[k]]; q= md==ADD_VALUES? q+y[k]:y[k]; v->set[ix[k]]=1; } return 0; } PetscErrorCode VecSetValue(Vec v,PetscInt i,PetscScalar y,InsertMode md){ return VecSetValues(v,1,&i,&y,md); }
PetscErrorCode VecAssemblyBegin(Vec v){ TICK LIVE(v) v->begun=true; return 0; } PetscErrorCode VecAssemblyEnd(Vec v){ TICK LIVE(v) if(!v->begun){ misuse("assembly ended before its begin"); return 73; } v->begun=false; v->dirty=false; v->assembled=true; return 0; }
PetscErrorCode MatGetSize(Mat A,PetscInt*a,PetscInt*b){ TICK LIVE(A) if(a) *a=A->m; if(b) *b=A->n; return 0; } PetscErrorCode MatGetLocalSize(Mat A,PetscInt*a,PetscInt*b){ return MatGetSize(A,a,b); } PetscErrorCode VecGetSize(Vec v,PetscInt*n){ TICK LIVE(v) *n=v->n; return 0; } PetscErrorCode VecGetLocalSize(Vec v,PetscInt*n){ return VecGetSize(v,n); }
PetscErrorCode MatGetOwnershipRange(Mat A,PetscInt*a,PetscInt*b){ TICK LIVE(A) *a=0; *b=A->m; return 0; } PetscErrorCode VecGetOwnershipRange(Vec v,PetscInt*a,PetscInt*b){ TICK LIVE(v) *a=0; *b=v->n; return 0; }
}
struct Quiet { int keep; Quiet(){ fflush(stdout); std::cout.flush(); keep=dup(1); int dn=open("/dev/null",O_WRONLY); dup2(dn,1); close(dn); } ~Quiet(){ fflush(stdout); std::cout.flush(); dup2(keep,1); close(keep); } };
static void reset(){ for(Mat A:g_mats) delete A; for(Vec v:g_vecs) delete v; g_mats.clear(); g_vecs.clear(); g_mock.clear(); g_failat=0; g_ncall=0; g_failed.clear(); g_mpisize=1; g_mpirank=0; g_notext=g_msgfails=false; }
static void nomisuse(){ REQUIRE(g_mock.empty(),"PETSc misused: %s",g_mock.c_str()); }
// a matrix made of whole blocks, of which some entries may be missing in the file
static Coo blocky(Rng&g,int bs,int nb,int mb,double d){ Coo c; c.nr=bs*nb; c.nc=bs*mb; for(int I=0;I<nb;I++){ std::vector<int> J=rowcols(g,mb,I,d,0.9); if(J.empty()) J.push_back(g.below(mb)); std::vector<std::vector<double>> row(bs); for(int r=0;r<bs;r++){ bool any=false; for(int k=0;k<(int)J.size();k++) for(int q=0;q<bs;q++) if(g.chance(0.7)||(!any&&k+1==(int)J.size()&&q+1==bs)){ any=true; c.e.push_back({I*bs+r,J[k]*bs+q,rv(g,false)}); } } } return c; }
static void cmpmat(Mat A,const Coo&co){ REQUIRE(g_mats.count(A),"no matrix was made"); REQUIRE(A->assembled&&!A->begun&&!A->dirty,"the matrix is not assembled"); REQUIRE(A->m==co.nr&&A->n==co.nc,"the matrix is %d x %d, the file has %d x %d",A->m,A->n,co.nr,co.nc); std::map<std::pair<int,int>,double> w; for(auto&e:co.e) w[{e.i,e.j}]=e.v; size_t hits=0;
	for(auto&p:A->v){ auto it=w.find(p.first); double x= it==w.end()?0:it->second; hits+= it!=w.end(); REQUIRE(p.second==x,"entry (%d,%d) is %.17g, the file has %.17g",p.first.first,p.first.second,p.second,x); } REQUIRE(hits==w.size(),"%zu of %zu entries of the file are in the matrix",hits,w.size()); count("entries_compared",w.size()); }
// text of a vector file
static std::string vectext(Rng&g,const std::vector<double>&v){ int n=(int)v.size(); std::string nl=g.chance(0.15)?"\r\n":"\n"; std::string t=std::string("%%MatrixMarket")+pad(g)+"matrix"+pad(g)+"array"+pad(g)+"real"+pad(g)+"general"+nl; for(int k=g.below(3);k>0;k--) t+=comment(g)+nl; t+=fmt("%d",n)+pad(g)+"1"+nl; for(double x:v) t+=num(g,x,false)+nl; return t; }
