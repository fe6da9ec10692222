// P01 products, P02 assembly, P03 concurrent updates, P04 ownership, copies, equality, views, P23 diagonal statistics
#include "lib.hpp"
#include "scmatrixdefs.hpp"
#include "coomatrix.hpp"
#include "blas/matvecs.hpp"
#include <boost/align/aligned_alloc.hpp>
namespace blasted {
template <typename scalar, typename index, int bs, StorageOptions stor>
void bcsc_gemv3(const CRawBSCMatrix<scalar,index> *const mat, const scalar a, const scalar *const __restrict xx, const scalar b, const scalar *const yy, scalar *const zz);
}
using namespace hx;
typedef SRMatrixStorage<double,int> Store;

// remove random entries, including diagonals and whole rows
static SM drop(Rng&g,const SM&m,Case&c){
	if(!g.chance(0.4)) return m;
	std::vector<char> keep(m.nnzb(),1); for(auto&k:keep) if(g.chance(0.25)) k=0;
	for(int i=0;i<m.nb;i++) if(g.chance(0.15)) for(int j=m.rp[i];j<m.rp[i+1];j++) keep[j]=0;
	int n=0; for(char k:keep) n+=k; if(!n){ keep[0]=1; n=1; }
	SM r; r.nb=m.nb; r.bs=m.bs; r.rm=m.rm; r.rp=IBuf(m.nb+1); r.ci=IBuf(n); r.di=IBuf(m.nb,-1); r.v=DBuf((size_t)n*m.bs*m.bs); int k=0; int b2=m.bs*m.bs;
	for(int i=0;i<m.nb;i++){ r.rp[i]=k; for(int j=m.rp[i];j<m.rp[i+1];j++) if(keep[j]){ r.ci[k]=m.ci[j]; if(m.ci[j]==i) r.di[i]=k; memcpy(r.v.p+(size_t)k*b2,m.v.p+(size_t)j*b2,b2*8); k++; } } r.rp[m.nb]=k; r.ends();
	c.note(fmt("dropped to %d",n)); return r; }
struct Op { virtual ~Op(){} virtual void apply(const double*x,double*y)const=0; virtual void gemv3(double a,const double*x,double b,const double*y,double*z)const=0; virtual int dim()const=0; virtual bool hasapply()const{return true;} };
template<class M> struct OpM : Op { M m; template<class...A> OpM(A&&...a):m(std::forward<A>(a)...){} void apply(const double*x,double*y)const{ m.apply(x,y);} void gemv3(double a,const double*x,double b,const double*y,double*z)const{ m.gemv3(a,x,b,y,z);} int dim()const{ return m.dim(); } };
template<int bs,StorageOptions st> struct OpC : Op { CRawBSCMatrix<double,int> c; int nb; OpC(const SM&m):nb(m.nb){ CRawBSRMatrix<double,int> r=craw(m); convert_BSR_to_BSC<double,int,bs>(&r,&c); } ~OpC(){ alignedDestroyCRawBSCMatrix(c); }
	void apply(const double*x,double*y)const{} bool hasapply()const{return false;} void gemv3(double a,const double*x,double b,const double*y,double*z)const{ bcsc_gemv3<double,int,bs,st>(&c,a,x,b,y,z);} int dim()const{ return nb*bs; } };
template<int bs> static BSRMatrix<double,int,bs>* wrapmat(SM&m){ return new BSRMatrix<double,int,bs>(m.nb,m.rp.p,m.ci.p,m.v.p,m.di.p); }
template<class V> static Op* mkview(SM&m,bool st){ return st? (Op*)new OpM<V>(wrap(m)) : (Op*)new OpM<V>(m.nb,m.rp.p,m.ci.p,m.v.p,m.di.p); }
static Op* mkop(int k,SM&m,bool st){
	switch(k){
	case 0: return mkview<CSRMatrixView<double,int>>(m,st);
	case 1: return mkview<BSRMatrixView<double,int,3,RowMajor>>(m,st); case 2: return mkview<BSRMatrixView<double,int,4,RowMajor>>(m,st); case 3: return mkview<BSRMatrixView<double,int,7,RowMajor>>(m,st);
	case 4: return mkview<BSRMatrixView<double,int,3,ColMajor>>(m,st); case 5: return mkview<BSRMatrixView<double,int,4,ColMajor>>(m,st); case 6: return mkview<BSRMatrixView<double,int,5,ColMajor>>(m,st); case 7: return mkview<BSRMatrixView<double,int,7,ColMajor>>(m,st);
	case 8: return new OpM<BSRMatrix<double,int,1>>(m.nb,m.rp.p,m.ci.p,m.v.p,m.di.p); case 9: return new OpM<BSRMatrix<double,int,3>>(m.nb,m.rp.p,m.ci.p,m.v.p,m.di.p); case 10: return new OpM<BSRMatrix<double,int,7>>(m.nb,m.rp.p,m.ci.p,m.v.p,m.di.p);
	case 11: return new OpC<7,RowMajor>(m); case 12: return new OpC<3,ColMajor>(m); default: return new OpC<4,ColMajor>(m);
	} }
static const int OPBS[]={1,3,4,7,3,4,5,7,1,3,7,7,3,4}; static const bool OPRM[]={false,true,true,true,false,false,false,false,false,true,true,true,false,false};
static const char*OPN[]={"CSRView","BSRView3R","BSRView4R","BSRView7R","BSRView3C","BSRView4C","BSRView5C","BSRView7C","BSR1","BSR3","BSR7","BSC7R","BSC3C","BSC4C"};

static void fam_spmv(Case&c){ // P01
	Rng&g=c.rng; int k=g.below(14); GenOpt o; o.bs=OPBS[k]; o.rm=OPRM[k]; o.maxb=o.bs==1?30:o.bs<5?12:8; o.unsorted=g.chance(0.3); if(c.big){ o.hubs=true; o.big=o.bs==1?8000:o.bs<5?2000:700; o.deep=true; }
	SM m0=genmat(g,o,&c); SM m=drop(g,m0,c); c.note(OPN[k]); bool st=g.chance(0.5);
	Sched s=gensched(g,16); apply_sched(s); c.note(sdesc(s)); if(shim_race_mode) shim_race_mode(1);
	std::unique_ptr<Op> A(mkop(k,m,st)); REQUIRE(A->dim()==m.n(),"dim() is %d, expected %d",A->dim(),m.n());
	int n=m.n(); SM keep=m;
	ro_mat(m);
	for(int rep=0;rep<3;rep++){
		DBuf x=genvec(g,n),y=genvec(g,n),xs=x,ys=y; RoScope rs; ro_vec(x,"vector x");
		LVec ab,ax=smul(m,tol_l(x),&ab);
		if(A->hasapply()){ DBuf z(n,rep?NAN:0.0); A->apply(x.p,z.p); cmpvec(z.p,ax,ab,1e-14*(n+4),std::string(OPN[k])+" product"); count("products"); REQUIRE(x==xs,"product changed x"); }
		double a=g.pick<double>({0,1,-1,2,0.5,-3.25,1e3}),b=g.pick<double>({0,1,-1,0.25,-7,1e-3}); if(g.chance(0.3)) a=g.sym(); if(g.chance(0.3)) b=g.sym();
		LVec r(n),bd(n); for(int i=0;i<n;i++){ r[i]=(ld)a*ax[i]+(ld)b*ys[i]; bd[i]=fabsl((ld)a)*ab[i]+fabsl((ld)b*ys[i]); }
		std::string w=fmt("%s z = %g A x + %g y",OPN[k],a,b);
		if(g.chance(0.5)){ A->gemv3(a,x.p,b,y.p,y.p); cmpvec(y.p,r,bd,1e-14*(n+4),w+" (z same as y)"); }
		else { ro_vec(y,"vector y"); DBuf z(n,NAN); A->gemv3(a,x.p,b,y.p,z.p); cmpvec(z.p,r,bd,1e-14*(n+4),w); REQUIRE(y==ys,"gemv3 changed y"); }
		REQUIRE(x==xs,"gemv3 changed x"); count("gemv3");
	}
	REQUIRE(m.v==keep.v&&m.ci==keep.ci&&m.rp==keep.rp&&m.di==keep.di,"product changed the matrix");
	note_trace(c);
}

// ---------------------------------------------------------------- P02
// structure with all diagonals; for scalar matrices with dense sub-blocks so that rectangular updates exist
static void genstruct(Rng&g,int bs,int nb,std::vector<int>&rp,std::vector<int>&ci,bool big=false){
	Pat p; if(!big) p=lists(genpat(g,nb,g.below(PK_NUM))); else { std::string n; bool huge=nb>=HUGE_MIN; p=bigpat(g,nb,false,true,n,huge,huge); }
	if(bs==1) for(int t=0;t<1+g.below(4);t++){ int r=g.below(nb),cc=g.below(nb),h=1+g.below(std::min(4,nb-r)),w=1+g.below(std::min(5,nb-cc)); if(g.chance(0.4)) { cc=r; w=std::min(w,nb-r); h=std::min(h,nb-r); } for(int i=r;i<r+h;i++){ std::set<int> t(p[i].begin(),p[i].end()); for(int j=cc;j<cc+w;j++) t.insert(j); p[i].assign(t.begin(),t.end()); } }
	rp.assign(1,0); ci.clear(); bool uns=bs>1&&g.chance(0.3);
	for(int i=0;i<nb;i++){ size_t b=ci.size(); for(int j:p[i]) ci.push_back(j); if(uns) for(size_t k=ci.size();k>b+1;k--) std::swap(ci[k-1],ci[b+g.below((int)(k-b))]); rp.push_back((int)ci.size()); }
}
// another structure of the same size, with as many entries: the same, moved entries, or other columns
static void similar(Rng&g,int bs,int nb,std::vector<int>&rp,std::vector<int>&ci){
	std::vector<std::set<int>> r(nb); for(int i=0;i<nb;i++) r[i].insert(ci.begin()+rp[i],ci.begin()+rp[i+1]);
	int k=g.below(4); int tries=k==0?0:1+g.below(4);
	for(;tries>0;tries--){ int i=g.below(nb),j= k==1?i:g.below(nb); std::vector<int> out,in; for(int x:r[i]) if(x!=i) out.push_back(x); for(int x=0;x<nb;x++) if(!r[j].count(x)) in.push_back(x); if(out.empty()||in.empty()) continue; r[i].erase(out[g.below((int)out.size())]); r[j].insert(in[g.below((int)in.size())]); }
	rp.assign(1,0); ci.clear(); for(int i=0;i<nb;i++){ ci.insert(ci.end(),r[i].begin(),r[i].end()); rp.push_back((int)ci.size()); } (void)bs; }
template<int bs> static const Store& store(const BSRMatrix<double,int,bs>&A){ return A.getRawSRMatrix(); }
struct Model { int nb,bs; std::vector<int> rp,ci; std::vector<double> v;
	struct Row { std::vector<std::pair<int,int>> e; int operator[](int j) const { auto q=std::lower_bound(e.begin(),e.end(),std::make_pair(j,0)); return q!=e.end()&&q->first==j?q->second:-1; } }; std::vector<Row> pos; // position of an entry, -1 where there is none
	void build(){ pos.assign(nb,Row()); for(int i=0;i<nb;i++){ for(int j=rp[i];j<rp[i+1];j++) pos[i].e.push_back({ci[j],j}); std::sort(pos[i].e.begin(),pos[i].e.end()); } v.assign(ci.size()*bs*bs,0.0); } };
template<int bs> static void cmpmodel(const BSRMatrix<double,int,bs>&A,const Model&M,const char*when){
	const Store&s=store<bs>(A); REQUIRE(s.nbrows==M.nb&&s.nnzb==(int)M.ci.size()&&s.nbstored==(int)M.ci.size(),"%s: sizes %d/%d/%d, expected %d/%zu",when,s.nbrows,s.nnzb,s.nbstored,M.nb,M.ci.size());
	REQUIRE(A.dim()==M.nb*bs,"%s: dim() is %d",when,A.dim());
	REQUIRE(s.browptr.size()==M.nb+1&&s.bcolind.size()==(int)M.ci.size()&&s.vals.size()==(int)M.v.size()&&s.diagind.size()==M.nb&&s.browendptr.size()==M.nb,"%s: array lengths wrong",when);
	for(int i=0;i<=M.nb;i++) REQUIRE(s.browptr[i]==M.rp[i],"%s: row pointer %d is %d",when,i,s.browptr[i]);
	for(int i=0;i<M.nb;i++){ REQUIRE(s.browendptr[i]==M.rp[i+1],"%s: row end %d is %d",when,i,s.browendptr[i]); if(M.pos[i][i]>=0) REQUIRE(s.diagind[i]==M.pos[i][i],"%s: diagonal position %d is %d, expected %d",when,i,s.diagind[i],M.pos[i][i]); }
	for(size_t j=0;j<M.ci.size();j++) REQUIRE(s.bcolind[j]==M.ci[j],"%s: column index %zu is %d",when,j,s.bcolind[j]);
	for(size_t k=0;k<M.v.size();k++) REQUIRE(s.vals[k]==M.v[k],"%s: value %zu (block row pattern position %zu) is %.17g, expected %.17g",when,k,k/(bs*bs),s.vals[k],M.v[k]);
	count("entries_compared",M.v.size());
}
// one random assembly call on both matrix and model
template<int bs> static void asmop(Rng&g,BSRMatrix<double,int,bs>&A,Model&M,std::string&log){
	int k=g.below(bs==1?9:8); const int b2=bs*bs; auto val=[&]{ return g.chance(0.2)?(double)g.range(-5,5):std::ldexp(g.sym(),g.range(-10,10)); };
	if(k==7&&bs>1) k=8;
	if(bs>1){
		if(k<=1||k==4){ int i=g.below(M.nb),j=M.rp[i]+g.below(M.rp[i+1]-M.rp[i]); DBuf b(b2); for(auto&x:b) x=val(); DBuf bk=b; int si=i*bs+(g.chance(0.3)?g.below(bs):0),sj=M.ci[j]*bs+(g.chance(0.3)?g.below(bs):0);
			if(k==0){ A.submitBlock(si,sj,b.p,bs,bs); for(int q=0;q<b2;q++) M.v[(size_t)j*b2+q]=b[q]; log+="S"; } else { A.updateBlock(si,sj,b.p,bs,bs); for(int q=0;q<b2;q++) M.v[(size_t)j*b2+q]+=b[q]; log+="U"; } REQUIRE(b==bk,"assembly changed the buffer"); }
		else if(k==2||k==3){ int i=g.below(M.nb); if(M.pos[i][i]<0) return; DBuf b(b2); for(auto&x:b) x=val(); A.updateDiagBlock(i*bs+(g.chance(0.3)?g.below(bs):0),b.p,bs); for(int q=0;q<b2;q++) M.v[(size_t)M.pos[i][i]*b2+q]+=b[q]; log+="D"; }
		else if(k==8){ // a block that is not stored: nothing may change
			int i=g.below(M.nb),j=g.below(M.nb); if(M.pos[i][j]>=0) return; DBuf b(b2); for(auto&x:b) x=val(); if(g.chance(0.5)) A.submitBlock(i*bs,j*bs,b.p,bs,bs); else A.updateBlock(i*bs,j*bs,b.p,bs,bs); log+="x"; }
	} else {
		if(k<=1||k==4||k==7||k==8){ int r,h,c0,w; int tries=0; for(;;){ r=g.below(M.nb); int j=M.rp[r]+g.below(M.rp[r+1]-M.rp[r]); c0=M.ci[j]; w=1; while(c0+w<M.nb&&w<6&&M.pos[r][c0+w]>=0&&g.chance(0.8)) w++; h=1; while(r+h<M.nb&&h<6&&g.chance(0.8)){ bool ok=true; for(int q=c0;q<c0+w;q++) ok=ok&&M.pos[r+h][q]>=0; if(!ok) break; h++; } if(h!=w||++tries>2) break; }
			DBuf b(h*w); for(auto&x:b) x=val(); DBuf bk=b; bool sub=(k==0); if(sub) A.submitBlock(r,c0,b.p,h,w); else A.updateBlock(r,c0,b.p,h,w);
			for(int i=0;i<h;i++) for(int q=0;q<w;q++){ double&t=M.v[M.pos[r+i][c0+q]]; if(sub) t=b[i*w+q]; else t+=b[i*w+q]; } REQUIRE(b==bk,"assembly changed the buffer"); log+=fmt("%c%dx%d",sub?'S':'U',h,w); if(h!=w) count("rectangular_updates"); }
		else if(k==2||k==3){ int r=g.below(M.nb),h=1; while(r+h<M.nb&&h<5){ bool ok=true; for(int i=0;i<=h;i++) for(int j=0;j<=h;j++) ok=ok&&M.pos[r+i][r+j]>=0; if(!ok) break; h++; } DBuf b(h*h); for(auto&x:b) x=val(); A.updateDiagBlock(r,b.p,h);
			for(int i=0;i<h;i++) for(int j=0;j<h;j++) M.v[M.pos[r+i][r+j]]+=b[i*h+j]; log+=fmt("D%d",h); }
	}
	if(k==5){ double f=g.pick<double>({2,0.5,-1,3,0,1}); A.scaleAll(f); for(auto&x:M.v) x*=f; log+="*"; }
	if(k==6){ if(g.chance(0.2)){ A.setAllZero(); for(auto&x:M.v) x=0; log+="Z"; } else { A.setDiagZero(); for(int i=0;i<M.nb;i++) for(int q=0;q<b2;q++) M.v[(size_t)M.pos[i][i]*b2+q]=0; log+="z"; } }
	count("assembly_calls");
}
template<int bs> static void assembly(Case&c,bool derived){
	Rng&g=c.rng; std::unique_ptr<BSRMatrix<double,int,bs>> A; Model M; M.bs=bs; std::string log; int gens=1+g.below(3); bool viastruct=g.chance(0.4);
	for(int t=0;t<gens;t++){
		if(t>0&&g.chance(0.4)) similar(g,bs,M.nb,M.rp,M.ci),log+=" similar"; else { M.nb=1+g.below(bs==1?20:7); if(c.big) M.nb= c.idx%8==5&&!hooks()? HUGE_MIN+g.below(9000) : g.range(64,bs==1?2500:bs==3?900:400); genstruct(g,bs,M.nb,M.rp,M.ci,c.big); } M.build(); IBuf rp(M.rp),ci(M.ci);
		{ RoScope ro; if(shim_ro_add){ shim_ro_add(rp.p,rp.n*4,"given row pointers"); shim_ro_add(ci.p,ci.n*4,"given columns"); }
		if(!A){ if(viastruct) A.reset(new BSRMatrix<double,int,bs>()),A->setStructure(M.nb,ci.p,rp.p); else A.reset(new BSRMatrix<double,int,bs>(M.nb,ci.p,rp.p)); } else A->setStructure(M.nb,ci.p,rp.p); }
		A->setAllZero(); cmpmodel<bs>(*A,M,"after building the structure");
		log+=fmt(" nb=%d nnzb=%zu ",M.nb,M.ci.size());
		int ops=g.range(1,c.thorough?60:25); for(int k=0;k<ops;k++){ asmop<bs>(g,*A,M,log); if(g.chance(0.2)) cmpmodel<bs>(*A,M,log.c_str()); }
		cmpmodel<bs>(*A,M,log.c_str());
		if(g.chance(0.3)){ A.reset(new BSRMatrix<double,int,bs>(*A)); cmpmodel<bs>(*A,M,"copy"); log+=" copy"; }
	}
	c.note(fmt("bs=%d%s",bs,log.substr(0,120).c_str())); c.sig=hstr(log); for(double x:M.v){ uint64_t u; memcpy(&u,&x,8); c.sig=hmix(c.sig,u);} (void)derived; }
static void fam_asm(Case&c){ Sched s=gensched(c.rng,12); apply_sched(s); if(shim_race_mode) shim_race_mode(1); c.note(sdesc(s)); int k=c.rng.below(4); if(k<2) assembly<1>(c,false); else if(k==2) assembly<3>(c,false); else assembly<7>(c,false); note_trace(c); }

// ---------------------------------------------------------------- P03
struct Upd { int si,sj,h,w; bool diag; std::vector<double> b; };
template<int bs> static void concurrent(Case&c){
	Rng&g=c.rng; Model M; M.bs=bs; M.nb=1+g.below(bs==1?8:4); if(c.big) M.nb= c.idx%8==5&&!hooks()? HUGE_MIN+g.below(9000) : g.range(64,bs==1?2500:bs==3?900:400); genstruct(g,bs,M.nb,M.rp,M.ci,c.big); M.build(); IBuf rp(M.rp),ci(M.ci); BSRMatrix<double,int,bs> A(M.nb,ci.p,rp.p); A.setAllZero();
	Sched s=gensched(g,8,0); if(s.T==1) s.T=2+g.below(6); if(g.chance(0.7)) s.quantum=g.range(1,4); apply_sched(s); c.note(fmt("bs=%d nb=%d nnzb=%zu",bs,M.nb,M.ci.size())); c.note(sdesc(s));
	int per=g.range(1,hooks()?8:60); bool hot=g.chance(0.6); int hi=M.nb>=HUGE_MIN&&g.chance(0.5)?M.nb-1-g.below(90):g.below(M.nb); int mode=g.below(4); // 0 any, 1 diag only, 2 block only, 3 mixed on one diagonal block
	std::vector<std::vector<Upd>> q(s.T);
	for(auto&l:q) for(int k=0;k<per;k++){ Upd u; int i=hot?hi:g.below(M.nb); bool dg=mode==1||(mode==0&&g.chance(0.4))||(mode==3&&g.chance(0.5));
		if(bs>1){ int j= (dg||mode==3)? M.pos[i][i] : M.rp[i]+g.below(M.rp[i+1]-M.rp[i]); u.diag=dg; u.si=i*bs; u.sj=M.ci[j]*bs; u.h=u.w=bs; u.b.resize(bs*bs); for(auto&x:u.b) x=g.range(-9,9); for(int t=0;t<bs*bs;t++) M.v[(size_t)j*bs*bs+t]+=u.b[t]; }
		else { int cc= (dg||mode==3)? i: M.ci[M.rp[i]+g.below(M.rp[i+1]-M.rp[i])]; int w=1; while(cc+w<M.nb&&w<3&&M.pos[i][cc+w]>=0) w++; int h=1; if(dg){ w=1; while(i+w<M.nb&&w<3){ bool ok=true; for(int a=0;a<=w;a++) for(int b=0;b<=w;b++) ok=ok&&M.pos[i+a][i+b]>=0; if(!ok) break; w++; } h=w; }
			u.diag=dg; u.si=i; u.sj=cc; u.h=h; u.w=w; u.b.resize(h*w); for(auto&x:u.b) x=g.range(-9,9); for(int a=0;a<h;a++) for(int b=0;b<w;b++) M.v[M.pos[i+a][cc+b]]+=u.b[a*w+b]; }
		l.push_back(u); }
	if(shim_race_mode) shim_race_mode(1);
	BSRMatrix<double,int,bs>*pa=&A; auto*pq=&q;
	bool foreign=shim_foreign_call&&g.chance(0.4); if(foreign){ c.note("threads made without OpenMP"); count("foreign_thread_cases"); }
	#pragma omp parallel num_threads(s.T)
	{ int me=omp_get_thread_num(); auto work=[&]{ for(const Upd&u:(*pq)[me]){ if(u.diag) pa->updateDiagBlock(u.si,u.b.data(),u.h); else pa->updateBlock(u.si,u.sj,u.b.data(),u.h,u.w); } };
	  if(foreign) shim_foreign_call([](void*p){ (*(decltype(work)*)p)(); },&work); else work(); }
	cmpmodel<bs>(A,M,"after concurrent updates"); count("concurrent_updates",(uint64_t)per*s.T); note_trace(c); c.sig=hmix(c.sig,hstr(c.desc)+per);
}
static void fam_conc(Case&c){ int k=c.rng.below(4); if(k<2) concurrent<1>(c); else if(k==2) concurrent<3>(c); else concurrent<7>(c); }

// ---------------------------------------------------------------- P04
template<class T> static T* al(const T*src,size_t n){ T*p=(T*)boost::alignment::aligned_alloc(CACHE_LINE_LEN,std::max<size_t>(1,n*sizeof(T))); memcpy(p,src,n*sizeof(T)); return p; }
static RawBSRMatrix<double,int> mkraw(const SM&m){ int*rp=al(m.rp.p,m.rp.n); return RawBSRMatrix<double,int>(rp,al(m.ci.p,m.ci.n),al(m.v.p,m.v.n),al(m.di.p,m.di.n),rp+1,m.nb,m.nnzb(),m.nnzb()); }
static Store ownstore(const SM&m){ Store s; s.nbrows=m.nb; s.nnzb=s.nbstored=m.nnzb(); s.browptr.resize(m.nb+1); s.bcolind.resize(m.nnzb()); s.vals.resize((int)m.v.n); s.diagind.resize(m.nb); for(int i=0;i<=m.nb;i++) s.browptr[i]=m.rp[i]; for(int j=0;j<m.nnzb();j++) s.bcolind[j]=m.ci[j]; for(size_t j=0;j<m.v.n;j++) s.vals[(int)j]=m.v[j]; for(int i=0;i<m.nb;i++) s.diagind[i]=m.di[i]; s.browendptr.wrap(&s.browptr[1],m.nb); return s; }
template<class S> static void cmpstore(const S&s,const SM&m,const char*w){
	REQUIRE(s.nbrows==m.nb&&s.nnzb==m.nnzb()&&s.nbstored==m.nnzb(),"%s: sizes %d/%d/%d instead of %d/%d",w,s.nbrows,s.nnzb,s.nbstored,m.nb,m.nnzb());
	REQUIRE(s.browptr.size()==m.nb+1&&s.bcolind.size()==m.nnzb()&&s.vals.size()==(int)m.v.n&&s.diagind.size()==m.nb&&s.browendptr.size()==m.nb,"%s: array lengths %d %d %d %d %d",w,s.browptr.size(),s.bcolind.size(),s.vals.size(),s.diagind.size(),s.browendptr.size());
	for(int i=0;i<=m.nb;i++) REQUIRE(s.browptr[i]==m.rp[i],"%s: row pointer %d",w,i);
	for(int i=0;i<m.nb;i++){ REQUIRE(s.browendptr[i]==m.rp[i+1],"%s: row end %d",w,i); REQUIRE(s.diagind[i]==m.di[i],"%s: diagonal position %d is %d, expected %d",w,i,s.diagind[i],m.di[i]); }
	for(int j=0;j<m.nnzb();j++) REQUIRE(s.bcolind[j]==m.ci[j],"%s: column %d",w,j);
	for(size_t j=0;j<m.v.n;j++) REQUIRE(s.vals[(int)j]==m.v[j]||(std::isnan(s.vals[(int)j])&&std::isnan(m.v[j])),"%s: value %zu is %g expected %g",w,j,s.vals[(int)j],m.v[j]); count("storages_compared"); }
template<int bs> static void own(Case&c){
	GenOpt o; o.bs=bs; o.rm=true; o.maxb=bs==1?12:5; if(c.big){ o.big=bs==1?5000:bs==3?1000:500; o.deep=true; } SM m0=genmat(c.rng,o,&c); int path=c.rng.below(6); c.note(fmt("path=%d",path)); uint64_t s0=c.rng.next();
	leakcheck("matrix construction and destruction",[&]{
		Rng g(s0); SM m=m0; typedef BSRMatrix<double,int,bs> M; std::unique_ptr<M> A; bool alias=false; RawBSRMatrix<double,int> raw; Store src; 
		switch(path){
		case 0: A.reset(new M(m.nb,m.ci.p,m.rp.p)); A->setAllZero(); for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) A->submitBlock(i*bs,m.ci[j]*bs,m.v.p+(size_t)j*bs*bs,bs,bs); break;
		case 1: A.reset(new M(m.nb,m.rp.p,m.ci.p,m.v.p,m.di.p)); alias=true; break;
		case 2: raw=mkraw(m); A.reset(new M(raw)); REQUIRE(!raw.browptr&&!raw.bcolind&&!raw.vals&&!raw.diagind&&!raw.browendptr&&raw.nbrows==0&&raw.nnzb==0&&raw.nbstored==0,"raw matrix not nulled by the transfer"); break;
		case 3: A.reset(new M(ownstore(m))); break;
		case 4: A.reset(new M(Store(m.rp.p,m.ci.p,m.v.p,m.di.p,m.rp.p+1,m.nb,m.nnzb(),m.nnzb(),bs))); alias=true; break;
		case 5: { CRawBSRMatrix<double,int> cr=craw(m); 
			if(bs==1){ raw=copyRawBSRMatrix<double,int,1>(cr); A.reset(new M(raw)); } else { Store t=ownstore(m); Store t2(std::move(t)); REQUIRE(t.browptr.size()==0&&t.vals.size()==0&&t.bcolind.size()==0&&t.diagind.size()==0&&t.browendptr.size()==0,"moved-from storage still holds arrays"); A.reset(new M(std::move(t2))); } } break;
		}
		cmpstore(store<bs>(*A),m,"constructed matrix");
		REQUIRE(A->dim()==m.n(),"dim() is %d",A->dim());
		// aliasing
		{ const double*vp=&store<bs>(*A).vals[0]; REQUIRE((vp==m.v.p)==alias,"values %s the user's array",alias?"do not use":"use"); }
		A->scaleAll(2.0); SM m2=m0; for(auto&x:m2.v) x*=2; cmpstore(store<bs>(*A),m2,"scaled matrix"); if(alias) REQUIRE(m.v==m2.v,"wrapped array did not change with the matrix"); else REQUIRE(m.v==m0.v,"user array changed by an independent matrix");
		// copies
		std::unique_ptr<M> B(new M(*A)); cmpstore(store<bs>(*B),m2,"copy"); { auto eq=A->isEqual(*B,0.0); for(int k=0;k<5;k++) REQUIRE(eq[k],"copy differs in category %d",k); }
		REQUIRE(&store<bs>(*B).vals[0]!=&store<bs>(*A).vals[0]&&&store<bs>(*B).bcolind[0]!=&store<bs>(*A).bcolind[0]&&&store<bs>(*B).browptr[0]!=&store<bs>(*A).browptr[0]&&&store<bs>(*B).diagind[0]!=&store<bs>(*A).diagind[0],"copy shares an array with its source");
		REQUIRE(&store<bs>(*B).browendptr[0]!=&store<bs>(*A).browendptr[0],"row ends of the copy belong to its source");
		B->scaleAll(3.0); cmpstore(store<bs>(*A),m2,"source after changing the copy"); SM m3=m2; for(auto&x:m3.v) x*=3; cmpstore(store<bs>(*B),m3,"changed copy");
		if(g.chance(0.5)) A.reset(); else { A->setDiagZero(); cmpstore(store<bs>(*B),m3,"copy after changing the source"); }
		cmpstore(store<bs>(*B),m3,"copy after its source");
		DBuf x=genvec(g,m.n()),y(m.n(),NAN); B->apply(x.p,y.p); LVec ab,ax=smul(m3,tol_l(x),&ab); cmpvec(y.p,ax,ab,1e-13*(m.n()+4),"product with the copy");
		if(g.chance(0.3)){ B->setStructure(m.nb,m.ci.p,m.rp.p); B->setAllZero(); SM z=m0; for(auto&v:z.v) v=0; cmpstore(store<bs>(*B),z,"rebuilt copy"); }
		A.reset(); B.reset();
		if(alias){ REQUIRE(m.rp==m0.rp&&m.ci==m0.ci&&m.di==m0.di,"wrapped index arrays damaged"); m.v[0]=1; }
	});
}
static void storops(Case&c){
	Shape sh=genshape(c.rng); GenOpt o; o.bs=sh.bs; o.rm=sh.rm; o.maxb=9; if(c.big){ o.big=sh.bs==1?5000:900; o.deep=true; } SM m=genmat(c.rng,o,&c); c.note("storage");
	uint64_t s0=c.rng.next(); Sched sc=gensched(c.rng,8); apply_sched(sc); if(shim_race_mode) shim_race_mode(1);
	leakcheck("storage operations",[&]{
		Rng g(s0);
		{ Store s=ownstore(m); const double*vp=&s.vals[0]; CStore cs=share_with_const(s,m.bs); cmpstore(cs,m,"shared storage"); REQUIRE(&cs.vals[0]==vp&&&cs.browptr[0]==&s.browptr[0]&&&cs.bcolind[0]==&s.bcolind[0]&&&cs.diagind[0]==&s.diagind[0],"shared storage does not alias"); cmpstore(s,m,"storage after sharing"); s.vals[0]=77; REQUIRE(cs.vals[0]==77,"shared storage does not see changes"); }
		{ Store s=ownstore(m); const double*vp=&s.vals[0]; CStore cs=move_to_const(std::move(s)); REQUIRE(s.nbrows==0&&s.nnzb==0&&s.nbstored==0&&s.vals.size()==0&&s.browptr.size()==0,"source of move_to_const not emptied"); cmpstore(cs,m,"moved storage"); REQUIRE(&cs.vals[0]==vp,"move_to_const copied"); CStore c2(std::move(cs)); cmpstore(c2,m,"moved const storage"); REQUIRE(cs.vals.size()==0,"source of move not emptied"); }
		{ SM w=m; Store s(w.rp.p,w.ci.p,w.v.p,w.di.p,w.re.p,w.nb,w.nnzb(),w.nnzb(),w.bs); CStore cs=move_to_const(std::move(s)); cmpstore(cs,m,"moved wrapped storage"); }
		{ CStore cs=wrap(m); CRawBSRMatrix<double,int> r=createRawView(std::move(cs)); REQUIRE(r.browptr==m.rp.p&&r.bcolind==m.ci.p&&r.vals==m.v.p&&r.diagind==m.di.p&&r.browendptr==m.re.p&&r.nbrows==m.nb&&r.nnzb==m.nnzb()&&r.nbstored==m.nnzb(),"createRawView does not refer to the storage"); cmpstore(cs,m,"storage after createRawView"); }
		// copies of raw matrices
		{ CRawBSRMatrix<double,int> cr=craw(m); RoScope rs; ro_mat(m); RawBSRMatrix<double,int> r = m.bs==1?copyRawBSRMatrix<double,int,1>(cr):m.bs==4?copyRawBSRMatrix<double,int,4>(cr):copyRawBSRMatrix<double,int,5>(cr);
			REQUIRE(r.vals!=m.v.p&&r.browptr!=m.rp.p,"copy of the raw matrix aliases"); { Store t(r.browptr,r.bcolind,r.vals,r.diagind,r.browendptr,r.nbrows,r.nnzb,r.nbstored,m.bs); cmpstore(t,m,"copied raw matrix"); } alignedDestroyRawBSRMatrix(r); }
		DBuf scv(m.n(),NAN); bool pos=true; for(int i=0;i<m.nb;i++) for(int a=0;a<m.bs;a++) pos=pos&&m.at(m.di[i],a,a)>0;
		if(pos){ CRawBSRMatrix<double,int> cr=craw(m); if(m.bs==1) getScalingVector<double,int,1>(&cr,scv.p); else if(m.bs==4) getScalingVector<double,int,4>(&cr,scv.p); else getScalingVector<double,int,5>(&cr,scv.p); for(int i=0;i<m.n();i++){ double d=m.at(m.di[i/m.bs],i%m.bs,i%m.bs),e=1/std::sqrt(d); REQUIRE(std::fabs(scv[i]-e)<=4e-16*e,"scaling vector entry %d is %g, expected %g",i,scv[i],e); } count("scaling_vectors"); }
		// triangular views; the upper one needs the diagonal to be last in the last row
		for(int up=0;up<2;up++){
			auto check=[&](auto&t,const char*w){ int nnz=0; REQUIRE(t.nbrows==m.nb&&t.nbstored==m.nnzb(),"%s: sizes",w); for(int i=0;i<m.nb;i++){ int b=up?m.di[i]:m.rp[i],e=up?m.rp[i+1]:m.di[i]+1; nnz+=e-b; REQUIRE(t.browptr[i]==b&&t.browendptr[i]==e,"%s: row %d is [%d,%d), expected [%d,%d)",w,i,t.browptr[i],t.browendptr[i],b,e); REQUIRE(t.diagind[i]==m.di[i],"%s: diagonal %d",w,i); } REQUIRE(t.nnzb==nnz,"%s: %d blocks, expected %d",w,t.nnzb,nnz); REQUIRE(&t.vals[0]==m.v.p&&&t.bcolind[0]==m.ci.p,"%s: does not share the values",w); count("triangular_views"); };
			{ CRawBSRMatrix<double,int> cr=craw(m); CRawBSRMatrix<double,int> t= up?getUpperTriangularView(cr):getLowerTriangularView(cr); check(t,up?"raw upper view":"raw lower view"); alignedDestroyRawBSRMatrixTriangularView(reinterpret_cast<RawBSRMatrix<double,int>&>(t)); }
			{ CStore cs=wrap(m); CStore t= up?getUpperTriangularView(std::move(cs)):getLowerTriangularView(std::move(cs)); check(t,up?"upper view":"lower view"); cmpstore(cs,m,"storage after taking a view"); }
		}
	});
}
static void arrops(Case&c){ // ArrayView against a model of ownership; double frees and leaks are seen by the allocator
	uint64_t s0=c.rng.next(); int n=2+c.rng.below(4),ops=c.rng.range(3,30); c.note(fmt("arrays=%d ops=%d",n,ops)); c.sig=s0;
	leakcheck("array views",[&]{ Rng g(s0); IBuf user(64); for(int i=0;i<64;i++) user[i]=1000+i; IBuf keep=user;
		std::vector<std::unique_ptr<ArrayView<int>>> a; std::vector<std::vector<int>> mod; std::vector<int> wr; // wr: offset into user or -1
		for(int i=0;i<n;i++){ a.emplace_back(new ArrayView<int>()); mod.emplace_back(); wr.push_back(-1); }
		for(int t=0;t<ops;t++){ int i=g.below(n),k=g.below(8),len=1+g.below(20);
			switch(k){
			case 0: a[i]->resize(len); mod[i].resize(len); wr[i]=-1; for(int q=0;q<len;q++){ mod[i][q]=g.below(1000); (*a[i])[q]=mod[i][q]; } break;
			case 1: { int off=g.below(40); a[i]->wrap(user.p+off,len); wr[i]=off; mod[i].assign(keep.p+off,keep.p+off+len); } break;
			case 2: { std::vector<int> v(len); for(auto&x:v) x=g.below(1000); a[i]->take_control(al(v.data(),len),len); mod[i]=v; wr[i]=-1; } break;
			case 3: { ArrayView<int>*nw=new ArrayView<int>(std::move(*a[i])); REQUIRE(a[i]->size()==0,"moved-from array has length %d",a[i]->size()); a[i].reset(nw); } break;
			case 4: { ArrayView<const int> cv=move_to_const(std::move(*a[i])); REQUIRE(a[i]->size()==0,"array not emptied by move_to_const"); REQUIRE(cv.size()==(int)mod[i].size(),"length changed by move_to_const"); for(size_t q=0;q<mod[i].size();q++) REQUIRE(cv[(int)q]==mod[i][q],"content changed by move_to_const"); ArrayView<const int> cv2(std::move(cv)); REQUIRE(cv2.size()==(int)mod[i].size(),"length changed by a move"); mod[i].clear(); wr[i]=-1; } break;
			case 5: a[i].reset(new ArrayView<int>(len)); REQUIRE(a[i]->size()==len,"length of an allocated array"); mod[i].resize(len); wr[i]=-1; for(int q=0;q<len;q++){ mod[i][q]=q; (*a[i])[q]=q; } break;
			case 6: { int off=g.below(40); a[i].reset(new ArrayView<int>(user.p+off,len)); wr[i]=off; mod[i].assign(keep.p+off,keep.p+off+len); } break;
			case 7: { std::vector<int> v(len); for(auto&x:v) x=g.below(1000); bool ow=g.chance(0.5); int*p=al(v.data(),len); if(ow){ a[i].reset(new ArrayView<int>(p,len,true)); mod[i]=v; wr[i]=-1; } else { { ArrayView<int> w(p,len,false); REQUIRE(w[len-1]==v[len-1],"wrapped content"); } REQUIRE(p[0]==v[0],"wrapping array freed"); boost::alignment::aligned_free(p); } } break;
			}
			if(g.chance(0.3)&&mod[i].size()){ int q=g.below((int)mod[i].size()); int v=g.below(1000); (*a[i])[q]=v; mod[i][q]=v; if(wr[i]>=0){ REQUIRE(user[wr[i]+q]==v,"write through a wrapper did not reach the array"); keep[wr[i]+q]=v; for(int j=0;j<n;j++) if(wr[j]>=0) mod[j].assign(keep.p+wr[j],keep.p+wr[j]+mod[j].size()); } }
			for(int j=0;j<n;j++){ const ArrayView<int>&ca=*a[j]; REQUIRE(ca.size()==(int)mod[j].size(),"array length %d, expected %zu",ca.size(),mod[j].size()); for(size_t q=0;q<mod[j].size();q++) REQUIRE(ca[(int)q]==mod[j][q],"array element %zu is %d, expected %d",q,ca[(int)q],mod[j][q]); }
			count("array_ops"); }
		a.clear(); REQUIRE(user==keep,"user array damaged");
	}); }
template<int bs> static void equal(Case&c){
	Rng&g=c.rng; GenOpt o; o.bs=bs; o.rm=true; o.maxb=bs==1?8:4; if(c.big){ o.big=bs==1?5000:bs==3?1000:500; o.deep=true; } SM a=genmat(g,o,&c),b=a; double tol=g.pick<double>({0,1e-12,1e-3}); int edits=0; std::string w;
	for(int t=0;t<3;t++) switch(g.below(8)){
		case 0: { int j=g.below(b.nnzb()*bs*bs); double d=tol*g.pick<double>({0.5,3})+(tol==0?1e-9:0); b.v[j]+= g.chance(0.5)?d:-d; edits++; w+="v"; } break;
		case 1: { int j=g.below(b.nnzb()); b.ci[j]=g.below(b.nb); w+="c"; } break;
		case 2: { int i=g.below(b.nb); b.di[i]=g.below(b.nnzb()); w+="d"; } break;
		case 3: if(b.nb>1){ int i=1+g.below(b.nb-1); b.rp[i]=std::max(0,b.rp[i]-1); w+="r"; } break;
		case 4: if(g.chance(0.3)){ GenOpt o2=o; b=genmat(g,o2); w+="N"; } break;
		default: break; }
	b.ends(); bool e[5]={1,1,1,1,1};
	if(a.nb!=b.nb) e[0]=0; else if(a.nnzb()!=b.nnzb()) e[1]=0; else { for(int i=0;i<a.nb;i++){ if(a.rp[i]!=b.rp[i]) e[1]=0; if(a.di[i]!=b.di[i]) e[4]=0; } for(int j=0;j<a.nnzb();j++) if(a.ci[j]!=b.ci[j]) e[2]=0; for(size_t j=0;j<a.v.n;j++) if(std::fabs(a.v[j]-b.v[j])>tol) e[3]=0; }
	BSRMatrix<double,int,bs> A(a.nb,a.rp.p,a.ci.p,a.v.p,a.di.p),B(b.nb,b.rp.p,b.ci.p,b.v.p,b.di.p);
	for(int rev=0;rev<2;rev++){ auto r= rev?B.isEqual(A,tol):A.isEqual(B,tol); for(int k=0;k<5;k++) REQUIRE(r[k]==e[k],"isEqual category %d says %s, expected %s (edits %s, tolerance %g)",k,r[k]?"equal":"different",e[k]?"equal":"different",w.c_str(),tol); }
	c.note("equal "+w); for(double x:b.v){ uint64_t u; memcpy(&u,&x,8); c.sig=hmix(c.sig,u);} count("equality_tests"); }
static void fam_own(Case&c){ switch(c.rng.below(9)){ case 0: case 1: own<1>(c); break; case 2: own<3>(c); break; case 3: own<7>(c); break; case 4: storops(c); break; case 5: arrops(c); break; case 6: equal<1>(c); break; case 7: equal<3>(c); break; default: equal<7>(c); } }

// ---------------------------------------------------------------- P23: diagonal statistics of scalar matrices
static void fam_dstat(Case&c){
	Rng&g=c.rng; GenOpt o; o.maxb=30; if(c.big){ o.big=6000; o.deep=true; } SM m=genmat(g,o,&c); Sched s=gensched(g,8); apply_sched(s); c.note(sdesc(s));
	int zk=g.below(4); const double thr=100*2.220446049250313e-16; for(int i=0;i<m.nb;i++){ double&d=m.v[m.di[i]]; if(zk==1&&g.chance(0.2)) d=0; if(zk==2&&g.chance(0.2)) d=g.pick<double>({thr*0.9,-thr*0.9,thr*1.1,-thr*1.1,1e-300}); if(zk==3) d=std::ldexp(d,g.range(-4,4)); if(g.chance(0.3)) d=-d; }
	int z=0,fz=-1; long double p=1,plo=1,phi=1,sum=0,mn=INFINITY,mx=0; for(int i=0;i<m.nb;i++){ double d=m.v[m.di[i]],a=std::fabs(d); if(a<thr){ z++; if(fz<0) fz=i; } p*=d; plo*=std::min(a,1.0); phi*=std::max(a,1.0); sum+=a; mn=std::min(mn,(ld)a); mx=std::max(mx,(ld)a); }
	BSRMatrix<double,int,1> A(m.nb,m.rp.p,m.ci.p,m.v.p,m.di.p); ro_mat(m); if(shim_race_mode) shim_race_mode(1);
	REQUIRE(A.zeroDiagonalRow()==fz,"first zero diagonal reported in row %d, is in %d",A.zeroDiagonalRow(),fz); REQUIRE((int)A.getNumZeroDiagonals()==z,"%d zero diagonals reported, there are %d",(int)A.getNumZeroDiagonals(),z);
	double gp=A.getDiagonalProduct(),gs=A.getDiagonalAbsSum(),gn=A.getAbsMinDiagonalEntry(),gx=A.getAbsMaxDiagonalEntry();
	REQUIRE(plo<1e-290L||phi>1e290L||fabsl(gp-p)<=1e-14L*fabsl(p)*m.nb+1e-300L,"diagonal product %.15g, true %.15Lg",gp,p); REQUIRE(fabsl(gs-sum)<=1e-15L*sum*m.nb,"diagonal sum %.15g, true %.15Lg",gs,sum); REQUIRE(gn==mn,"diagonal minimum %.15g, true %.15Lg",gn,mn); REQUIRE(gx==mx,"diagonal maximum %.15g, true %.15Lg",gx,mx); count("diagonal_statistics");
}
int main(int argc,char**argv){ return run(argc,argv,{{"spmv",fam_spmv,1500,15000},{"asm",fam_asm,1000,10000},{"conc",fam_conc,1000,12000},{"own",fam_own,2000,20000},{"dstat",fam_dstat,400,4000},{"spmvL",large(fam_spmv),60,600},{"asmL",large(fam_asm),24,240},{"concL",large(fam_conc),24,240},{"ownL",large(fam_own),40,400},{"dstatL",large(fam_dstat),30,300}}); }
