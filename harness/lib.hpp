// Access to the library under test through its public interface.
#ifndef VERIF_LIB_HPP
#define VERIF_LIB_HPP
#include "common.hpp"
#include <memory>
#include <iostream>
#include "solverfactory.hpp"
#include "blockmatrices.hpp"
namespace hx {
using namespace blasted;
typedef SRMatrixStorage<const double,const int> CStore;
typedef SRPreconditioner<double,int> Prec;
inline CStore wrap(const SM&m){ return CStore(m.rp.p,m.ci.p,m.v.p,m.di.p,m.re.p,m.nb,m.nnzb(),m.nnzb(),m.bs); }
inline CRawBSRMatrix<double,int> craw(const SM&m){ return CRawBSRMatrix<double,int>(m.rp.p,m.ci.p,m.v.p,m.di.p,m.re.p,m.nb,m.nnzb(),m.nnzb()); }
struct Set { std::string type="jacobi"; bool relax=false, scale=false, info=false; int chunk=1, nb=1, na=1; FactInit fi=INIT_F_ORIGINAL; ApplyInit ai=INIT_A_ZERO; };
// now and then portions larger than the matrix, as in the defaults people use
inline int anychunk(Rng&g,int c){ return g.chance(0.08)? g.pick<int>({16,64,500,100000}) : c; }
inline std::string setdesc(const Set&s){ static const char*f[]={"zero","orig","sgs","none"}; static const char*a[]={"zero","jacobi","none"}; return fmt("%s%s chunk=%d nb=%d na=%d fi=%s ai=%s%s%s",s.type.c_str(),s.relax?" relax":"",s.chunk,s.nb,s.na,f[s.fi],a[s.ai],s.scale?" scale":"",s.info?" info":""); }
inline AsyncSolverSettings settings(const SM&m,const Set&s){
	SRFactory<double,int> f; AsyncSolverSettings o; o.prectype=f.solverTypeFromString(s.type); o.bs=m.bs; o.blockstorage=m.rm?RowMajor:ColMajor; o.relax=s.relax; o.thread_chunk_size=s.chunk; o.scale=s.scale; o.nbuildsweeps=s.nb; o.napplysweeps=s.na; o.fact_inittype=s.fi; o.apply_inittype=s.ai; o.compute_precinfo=s.info; return o; }
inline std::unique_ptr<Prec> make(const SM&m,const Set&s){ SRFactory<double,int> f; AsyncSolverSettings o=settings(m,s); return std::unique_ptr<Prec>(f.create_preconditioner(wrap(m),o)); }
struct Shape { int bs; bool rm; };
inline Shape genshape(Rng&g){ static const Shape s[]={{1,false},{1,false},{4,true},{4,false},{5,false}}; return s[g.below(5)]; }
inline void ro_mat(const SM&m){ if(!shim_ro_add) return; shim_ro_add(m.rp.p,m.rp.n*4,"row pointers"); shim_ro_add(m.ci.p,m.ci.n*4,"column indices"); shim_ro_add(m.v.p,m.v.n*8,"matrix values"); shim_ro_add(m.di.p,m.di.n*4,"diagonal positions"); shim_ro_add(m.re.p,m.re.n*4,"row ends"); }
inline void ro_vec(const DBuf&v,const char*n){ if(shim_ro_add) shim_ro_add(v.p,v.n*8,n); }
inline DBuf apply(const Prec&p,const DBuf&r,double fill=0){ DBuf z(r.n,fill); p.apply(r.p,z.p); return z; }

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
inline size_t allocbytes(){ return __sanitizer_get_current_allocated_bytes? __sanitizer_get_current_allocated_bytes():0; }
// f must leave no memory behind; run a second time before judging, since a first run may fill lazily built tables
template<class F> void leakcheck(const char*what,F f){
	size_t a=allocbytes(); f(); size_t b=allocbytes(); if(!__sanitizer_get_current_allocated_bytes) return; count("leak_checks"); if(b<=a) return;
	a=allocbytes(); f(); b=allocbytes(); if(b>a){ size_t a2=b; f(); b=allocbytes(); if(b>a2) MEMFAIL("%s: %zu bytes not released",what,b-a2); } }
}
#endif
