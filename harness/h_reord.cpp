// P15 reordering and scaling, P16 reordered incomplete LU
#include "lib.hpp"
#include "reorderingscaling.hpp"
#include "solverops_ilu0.hpp"
using namespace hx;

template<int bs> struct TestRS : public ReorderingScaling<double,int,bs> {
	std::vector<std::pair<std::vector<int>,std::vector<int>>> seq; size_t k=0; const CRawBSRMatrix<double,int>*seen=nullptr; int computes=0; CRawBSRMatrix<double,int> last;
	void compute(const CRawBSRMatrix<double,int>&m){ computes++; last.nbrows=m.nbrows; last.browptr=m.browptr; last.vals=m.vals; if(seq.empty()) return; auto&s=seq[std::min(k,seq.size()-1)]; k++; this->setOrdering(s.first.size()?s.first.data():nullptr,s.second.size()?s.second.data():nullptr,(int)std::max(s.first.size(),s.second.size())); }
	void scales(const std::vector<double>&r,const std::vector<double>&c){ this->rowscale=r; this->colscale=c; }
};
static std::vector<int> perm(Rng&g,int n){ std::vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; int k=g.below(4); if(k==0){ for(int i=n;i>1;i--) std::swap(p[i-1],p[g.below(i)]); } else if(k==1){ int s=g.below(n); std::rotate(p.begin(),p.begin()+s,p.end()); } else if(k==2) std::reverse(p.begin(),p.end()); else for(int t=0;t<3;t++) std::swap(p[g.below(n)],p[g.below(n)]); return p; }
struct Tr { std::vector<int> rp,cp; std::vector<double> r,c; };
static bool hasdiag(const SM&m,const Tr&t){ auto p=m.pattern(); for(int i=0;i<m.nb;i++) if(!p[t.rp.size()?t.rp[i]:i][t.cp.size()?t.cp[i]:i]) return false; return true; }
// forward transformed copy of m (columns sorted when they moved)
static SM model(const SM&m,const Tr&t,bool order,bool scale,bool sorted){
	SM b=m; int B2=m.bs*m.bs; std::vector<int> icp(m.nb); for(int i=0;i<m.nb;i++) icp[i]=i; if(order) for(size_t i=0;i<t.cp.size();i++) icp[t.cp[i]]=(int)i;
	int pos=0; b.rp[0]=0;
	for(int i=0;i<m.nb;i++){ int s=order&&t.rp.size()?t.rp[i]:i; std::vector<std::pair<int,int>> e; for(int j=m.rp[s];j<m.rp[s+1];j++) e.push_back({icp[m.ci[j]],j}); if(sorted||(order&&t.cp.size())) std::sort(e.begin(),e.end());
		b.di[i]=-1;
		for(auto&x:e){ b.ci[pos]=x.first; if(x.first==i) b.di[i]=pos; for(int q=0;q<B2;q++){ double v=m.v[(size_t)x.second*B2+q]; if(scale&&t.r.size()) v*=t.r[s]; if(scale&&t.c.size()) v*=t.c[m.ci[x.second]]; b.v[(size_t)pos*B2+q]=v; } pos++; }
		b.rp[i+1]=pos; }
	b.ends(); return b; }
static void cmp(const SM&got,const SM&exp,double tol,const char*what,bool diag){
	REQUIRE(got.nb==exp.nb,"%s: size",what); for(int i=0;i<=exp.nb;i++) REQUIRE(got.rp[i]==exp.rp[i],"%s: row pointer %d is %d, expected %d",what,i,got.rp[i],exp.rp[i]);
	for(int i=0;i<exp.nb;i++) REQUIRE(got.re[i]==exp.rp[i+1],"%s: row end %d is %d, expected %d",what,i,got.re[i],exp.rp[i+1]);
	for(int j=0;j<exp.nnzb();j++) REQUIRE(got.ci[j]==exp.ci[j],"%s: column of entry %d is %d, expected %d",what,j,got.ci[j],exp.ci[j]);
	for(size_t j=0;j<exp.v.n;j++) REQUIRE(std::fabs(got.v[j]-exp.v[j])<=tol*std::fabs(exp.v[j]),"%s: value %zu is %.17g, expected %.17g",what,j,got.v[j],exp.v[j]);
	if(diag) for(int i=0;i<exp.nb;i++) if(exp.di[i]>=0) REQUIRE(got.di[i]==exp.di[i],"%s: diagonal of row %d at %d, is at %d",what,i,got.di[i],exp.di[i]);
	count("matrix_transforms"); }
template<int bs> static void reord(Case&c){
	Rng&g=c.rng; GenOpt o; o.bs=bs; o.rm=g.chance(0.5); o.maxb=bs==1?40:bs==4?12:6; o.unsorted=g.chance(0.2); if(c.big){ o.big=bs==1?3000:bs==4?800:400; o.deep=true; } SM m=genmat(g,o,&c); int n=m.nb;
	Tr t; int w=g.below(4); if(w!=1) t.rp=perm(g,n); if(w!=2) t.cp=perm(g,n); if(w==3&&g.chance(0.5)) t.cp=t.rp; if(w==0&&g.chance(0.3)){ t.rp.clear(); t.cp.clear(); }
	bool p2=g.chance(0.6); auto sc=[&]{ std::vector<double> s(n); for(auto&x:s) x= p2? std::ldexp(g.chance(0.5)?1:-1,g.range(-5,5)) : (0.3+g.uni())*(g.chance(0.5)?1:-1); return s; };
	if(g.chance(0.6)) t.r=sc(); if(g.chance(0.6)) t.c=sc();
	TestRS<bs> rs; if(g.chance(0.4)&&(t.rp.size()||t.cp.size())){ Tr old; if(t.rp.size()) old.rp=perm(g,n); if(t.cp.size()) old.cp=perm(g,n); rs.setOrdering(old.rp.size()?old.rp.data():nullptr,old.cp.size()?old.cp.data():nullptr,n); c.note("reset"); if(g.chance(0.5)){ SM a=m; RawBSRMatrix<double,int> r(a.rp.p,a.ci.p,a.v.p,a.di.p,a.re.p,n,a.nnzb(),a.nnzb()); rs.applyOrdering(r,g.chance(0.5)?FORWARD:INVERSE); DBuf x=genvec(g,n*bs); rs.applyOrdering(x.p,g.chance(0.5)?FORWARD:INVERSE,g.chance(0.5)?ROW:COLUMN); } }
	rs.setOrdering(t.rp.size()?t.rp.data():nullptr,t.cp.size()?t.cp.data():nullptr,n); rs.scales(t.r,t.c); double tol=p2?0:1e-15;
	REQUIRE(rs.isRowReordering()==(t.rp.size()>0),"isRowReordering");
	Sched s=gensched(g,8); apply_sched(s); c.note(fmt("rows=%d cols=%d rscale=%d cscale=%d ",(int)t.rp.size()>0,(int)t.cp.size()>0,(int)t.r.size()>0,(int)t.c.size()>0)+sdesc(s)); if(shim_race_mode) shim_race_mode(1);
	for(int x:t.rp) c.sig=hmix(c.sig,x); for(int x:t.cp) c.sig=hmix(c.sig,x+1000);
	bool st=t.cp.size()>0;
	{ SM a=m; RawBSRMatrix<double,int> r(a.rp.p,a.ci.p,a.v.p,a.di.p,a.re.p,n,a.nnzb(),a.nnzb());
		rs.applyOrdering(r,FORWARD); cmp(a,model(m,t,true,false,false),0,"reordered matrix",true);
		SM back=m; if(st) back=model(m,Tr(),false,false,true);
		rs.applyOrdering(r,INVERSE); cmp(a,back,0,"matrix after ordering and its inverse",true);
		rs.applyScaling(r,FORWARD); cmp(a,model(back,t,false,true,false),tol*3,"scaled matrix",true);
		rs.applyScaling(r,INVERSE); cmp(a,back,tol*6,"matrix after scaling and its inverse",true);
		// inverse first
		SM a2=m; RawBSRMatrix<double,int> r2(a2.rp.p,a2.ci.p,a2.v.p,a2.di.p,a2.re.p,n,a2.nnzb(),a2.nnzb()); rs.applyOrdering(r2,INVERSE); Tr it; it.rp.resize(t.rp.size()); it.cp.resize(t.cp.size()); for(size_t i=0;i<t.rp.size();i++) it.rp[t.rp[i]]=(int)i; for(size_t i=0;i<t.cp.size();i++) it.cp[t.cp[i]]=(int)i; cmp(a2,model(m,it,true,false,false),0,"inversely reordered matrix",true); rs.applyOrdering(r2,FORWARD); cmp(a2,back,0,"matrix after inverse ordering and ordering",true); }
	// vectors
	int N=n*bs; DBuf x=genvec(g,N); 
	for(int d=0;d<2;d++){ RSApplyDir dir=d?COLUMN:ROW; auto&p=d?t.cp:t.rp; auto&sc2=d?t.c:t.r; const char*dn=d?"column":"row";
		DBuf y=x; rs.applyOrdering(y.p,FORWARD,dir); for(int i=0;i<n;i++) for(int k=0;k<bs;k++) REQUIRE(y[i*bs+k]==x[(p.size()?p[i]:i)*bs+k],"%s-ordered vector, entry %d",dn,i*bs+k);
		rs.applyOrdering(y.p,INVERSE,dir); REQUIRE(y==x,"vector changed by %s ordering and its inverse",dn);
		rs.applyOrdering(y.p,INVERSE,dir); for(int i=0;i<n;i++) for(int k=0;k<bs;k++) REQUIRE(y[(p.size()?p[i]:i)*bs+k]==x[i*bs+k],"inversely %s-ordered vector, entry %d",dn,i*bs+k);
		y=x; rs.applyScaling(y.p,FORWARD,dir); for(int i=0;i<N;i++){ double e=sc2.size()?x[i]*sc2[i/bs]:x[i]; REQUIRE(y[i]==e,"%s-scaled vector, entry %d is %.17g, expected %.17g",dn,i,y[i],e); }
		y=x; rs.applyScaling(y.p,INVERSE,dir); for(int i=0;i<N;i++){ double e=sc2.size()?x[i]/sc2[i/bs]:x[i]; REQUIRE(std::fabs(y[i]-e)<=1e-15*std::fabs(e),"inversely %s-scaled vector, entry %d is %.17g, expected %.17g",dn,i,y[i],e); } count("vector_transforms",4); }
	if constexpr(bs!=4){
		// through the matrix' own interface; then transformed products agree
		BSRMatrix<double,int,bs> A(m.nb,m.rp.p,m.ci.p,m.v.p,m.di.p); DBuf y0(N,NAN),y1(N,NAN); A.apply(x.p,y0.p);
		SM orig=m; A.computeOrderingScaling(rs); REQUIRE(rs.computes==1&&rs.last.nbrows==n&&rs.last.browptr==m.rp.p&&rs.last.vals==m.v.p,"computeOrderingScaling did not pass the matrix on");
		A.reorderScale(rs,FORWARD); m.ends(); cmp(m,model(orig,t,true,true,false),tol*3,"reordered and scaled matrix",true);
		if(bs==1||m.rm){ DBuf u=x; rs.applyScaling(u.p,INVERSE,COLUMN); rs.applyOrdering(u.p,FORWARD,COLUMN); A.apply(u.p,y1.p); DBuf v=y0; rs.applyScaling(v.p,FORWARD,ROW); rs.applyOrdering(v.p,FORWARD,ROW); LVec bd; smul(m,tol_l(u),&bd); for(int i=0;i<N;i++) REQUIRE(fabsl(y1[i]-v[i])<=1e-13L*N*bd[i]+1e-290L,"product with the transformed matrix, entry %d: %.17g, expected %.17g",i,y1[i],v[i]); count("transformed_products"); }
		A.reorderScale(rs,INVERSE); m.ends(); SM back=orig; if(st) back=model(orig,Tr(),false,false,true); cmp(m,back,tol*6,"matrix after reordering, scaling and their inverse",true);
	}
	note_trace(c);
}
static void fam_reord(Case&c){ switch(c.rng.below(4)){ case 0: case 1: reord<1>(c); break; case 2: reord<4>(c); break; default: reord<7>(c); } }

static void fam_rilu(Case&c){ // P16
	Rng&g=c.rng; GenOpt o; o.posdiag=true; o.maxb=hooks()?11:16; if(c.big) o.big=2000; SM b=genmat(g,o,&c); int n=b.nb; IluRef R=iluref(b,true); if(!R.ok||R.growth>1e8){ c.trivial=true; return; }
	Tr t; int w=g.below(4); if(w!=1) t.rp=perm(g,n); if(w!=2) t.cp=perm(g,n); if(w==3&&g.chance(0.3)) t.cp=t.rp;
	// the matrix A with B(i,j) = A(rp[i],cp[j])
	Tr it; it.rp.resize(t.rp.size()); it.cp.resize(t.cp.size()); for(size_t i=0;i<t.rp.size();i++) it.rp[t.rp[i]]=(int)i; for(size_t i=0;i<t.cp.size();i++) it.cp[t.cp[i]]=(int)i; SM a=model(b,it,true,false,true);
	for(int i=0;i<n;i++) if(a.di[i]<0){ count("rows_without_diagonal"); }
	Sched sc=gensched(g,8); bool tf=g.chance(0.5),ta=g.chance(0.5); int dl,du; depthLU(b,dl,du); int nb= tf? sweeps(R.depth,sc):1, na= ta? sweeps(std::max(dl,du),sc):1; if(sc.T==1){ if(g.chance(0.5)) nb=1; if(g.chance(0.5)) na=1; }
	int chunk=anychunk(g,g.pick<int>({1,1,2,5})); FactInit fi=(FactInit)g.below(4); ApplyInit ai=(ApplyInit)g.below(2);
	c.note(fmt("rows=%d cols=%d nb=%d na=%d threadedfactor=%d threadedapply=%d fi=%d ai=%d chunk=%d ",(int)t.rp.size()>0,(int)t.cp.size()>0,nb,na,tf,ta,(int)fi,(int)ai,chunk)+sdesc(sc)); for(int x:t.rp) c.sig=hmix(c.sig,x); for(int x:t.cp) c.sig=hmix(c.sig,x+1000);
	TestRS<1> rs; int pre=t.rp.size()&&t.cp.size()&&g.chance(0.5)?1+g.below(2):0; for(int k=0;k<pre;k++){ auto q=perm(g,n); std::vector<int> r0(n),c0(n); for(int i=0;i<n;i++){ r0[i]=t.rp[q[i]]; c0[i]=t.cp[q[i]]; } rs.seq.push_back({r0,c0}); } rs.seq.push_back({t.rp,t.cp}); if(pre) c.note(fmt("orderings=%d",pre+1));
	uint64_t s0=g.next();
	leakcheck("reordered ILU",[&]{ Rng g2(s0);
		ReorderedAsyncILU0_SRPreconditioner<double,int> p(wrap(a),&rs,nb,na,chunk,fi,ai,tf,ta); ro_mat(a); apply_sched(sc); rs.k=0; for(int k=0;k<pre;k++){ p.compute(); if(g2.chance(0.5)){ DBuf r=genvec(g2,n); apply(p,r,0); } } int c0=rs.computes; p.compute(); REQUIRE(rs.computes==c0+1,"the ordering was not computed"); REQUIRE(p.dim()==n,"dim() is %d",p.dim());
		int rep=g2.chance(0.2)?2:1; if(rep==2) p.compute();
		for(int k=0;k<3;k++){ DBuf r=genvec(g2,n); RoScope rsc; ro_vec(r,"right-hand side"); Sched s2=sc; s2.seed=g2.next(); s2.pol=g2.below(SHIM_NPOL); apply_sched(s2);
			DBuf z=apply(p,r,k==1?NAN:k); LVec rb(n); for(int i=0;i<n;i++) rb[i]=r[t.rp.size()?t.rp[i]:i]; LVec zb,zz=iluapply(R,rb,zb),ref(n),bd(n); for(int i=0;i<n;i++){ int q=t.cp.size()?t.cp[i]:i; ref[q]=zz[i]; bd[q]=zb[i]; }
			cmpvec(z.p,ref,bd,1e-10,"reordered ILU application"); count("reordered_applications"); }
		bool th=false; DBuf x(n,1.0),y(n,0.0); try{ p.apply_relax(x.p,y.p); }catch(const std::exception&){ th=true; } REQUIRE(th&&!p.relaxationAvailable(),"reordered ILU claims to be a relaxation");
		if(shim_ro_clear) shim_ro_clear();
	});
	note_trace(c);
}
int main(int argc,char**argv){ return run(argc,argv,{{"reord",fam_reord,1000,10000},{"rilu",fam_rilu,700,8000},{"reordL",large(fam_reord),40,400},{"riluL",large(fam_rilu),40,400}}); }
