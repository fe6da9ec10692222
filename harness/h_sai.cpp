// P17 sparse approximate inverses
#include "lib.hpp"
#include "sai.hpp"
#include <Eigen/Dense>
using namespace hx;
namespace blasted { template<typename scalar,typename index,int bs,StorageOptions stor> void compute_SAI(const SRMatrixStorage<const scalar,const index>& mat,const LeftSAIPattern<index>& sp,const int chunk,const bool fullsai,SRMatrixStorage<scalar,index>& sai); }
typedef SRMatrixStorage<double,int> Store;

static void checkpat(const SM&m,const LeftSAIPattern<int>&sp,bool full){
	int nb=m.nb; std::vector<std::set<int>> pat(nb); for(int i=0;i<nb;i++) pat[i].insert(m.ci.p+m.rp[i],m.ci.p+m.rp[i+1]);
	REQUIRE((int)sp.sairowptr.size()==nb+1&&(int)sp.nVars.size()==nb&&(int)sp.nEqns.size()==nb&&(int)sp.localCentralRow.size()==nb,"pattern arrays have wrong lengths"); REQUIRE(sp.sairowptr[0]==0&&sp.bcolptr.size()==(size_t)sp.sairowptr[nb]+1&&sp.bcolptr[0]==0,"pattern pointers inconsistent");
	REQUIRE(sp.bpos.size()==sp.browind.size()&&(size_t)sp.bcolptr[sp.sairowptr[nb]]==sp.bpos.size(),"pattern lists have wrong lengths");
	for(int i=0;i<nb;i++){
		int nv=m.rp[i+1]-m.rp[i]; REQUIRE(sp.nVars[i]==nv&&sp.sairowptr[i+1]-sp.sairowptr[i]==nv,"row %d has %d unknown blocks, expected %d",i,sp.nVars[i],nv);
		std::set<int> eq; if(full){ for(int j=m.rp[i];j<m.rp[i+1];j++) for(int k=m.rp[m.ci[j]];k<m.rp[m.ci[j]+1];k++) eq.insert(m.ci[k]); } else for(int j=m.rp[i];j<m.rp[i+1];j++) eq.insert(m.ci[j]);
		REQUIRE(sp.nEqns[i]==(int)eq.size(),"row %d has %d equations, expected %zu",i,sp.nEqns[i],eq.size());
		std::vector<int> col(sp.nEqns[i],-1); std::set<int> used;
		for(int v=0;v<nv;v++){ int src=m.ci[m.rp[i]+v],b=sp.bcolptr[sp.sairowptr[i]+v],e=sp.bcolptr[sp.sairowptr[i]+v+1]; std::set<int> want; for(int k=m.rp[src];k<m.rp[src+1];k++) if(full||pat[i].count(m.ci[k])) want.insert(k);
			REQUIRE(e-b==(int)want.size(),"row %d, column %d of the local problem has %d blocks, expected %zu",i,v,e-b,want.size());
			for(int q=b;q<e;q++){ REQUIRE(want.erase(sp.bpos[q])==1,"row %d, column %d of the local problem refers to block %d, which it does not need (or twice)",i,v,sp.bpos[q]); int lr=sp.browind[q]; REQUIRE(lr>=0&&lr<sp.nEqns[i],"row %d: local row %d out of range",i,lr); int cc=m.ci[sp.bpos[q]]; if(col[lr]<0){ REQUIRE(used.insert(cc).second,"row %d: equation %d appears as two local rows",i,cc); col[lr]=cc; } else REQUIRE(col[lr]==cc,"row %d: local row %d stands for equations %d and %d",i,lr,col[lr],cc); count("pattern_entries"); } }
		int cr=sp.localCentralRow[i]; REQUIRE(cr>=0&&cr<sp.nEqns[i]&&col[cr]==i,"row %d: the central local row %d stands for equation %d",i,cr,cr>=0&&cr<sp.nEqns[i]?col[cr]:-1);
	}
}
// makes some scalar rows of equal structure nearly dependent, without losing rank
static void illcond(Rng&g,SM&m,bool full,Case&c){
	if(m.bs==1&&!full) return; auto same=[&m](int i,int j){ return m.rp[i+1]-m.rp[i]==m.rp[j+1]-m.rp[j]&&std::set<int>(m.ci.p+m.rp[i],m.ci.p+m.rp[i+1])==std::set<int>(m.ci.p+m.rp[j],m.ci.p+m.rp[j+1]); }; ld e=ldexpl(1,-g.range(4,20)); int done=0; std::set<int> used; // each row takes part at most once: dependences must not compound
	for(int t=0;t<200&&done<3;t++){
		int i=g.below(m.nb),j=i,a=0,b=0; if(m.bs>1){ a=g.below(m.bs); b=(a+1+g.below(m.bs-1))%m.bs; } else { j=g.below(m.nb); if(j==i||!same(i,j)) continue; }
		if(used.count(i*m.bs+a)||used.count(j*m.bs+b)) continue; used.insert(i*m.bs+a); used.insert(j*m.bs+b);
		ld sg=g.chance(0.5)?1:-1; for(int k=m.rp[j];k<m.rp[j+1];k++) for(int l=m.rp[i];l<m.rp[i+1];l++) if(m.ci[k]==m.ci[l]) for(int d=0;d<m.bs;d++) m.at(k,b,d)=(double)(sg*m.at(l,a,d)+e*m.at(k,b,d)); done++; }
	if(done) c.note(fmt("ill=%d/%.1Le ",done,e)); }
// forward error of a row of the inverse against an extended-precision solution of its local problem
static ld entry(const SM&m,int r,int c){ for(int j=m.rp[r/m.bs];j<m.rp[r/m.bs+1];j++) if(m.ci[j]==c/m.bs) return m.at(j,r%m.bs,c%m.bs); return 0; }
static void forward(const SM&m,const SM&res,int i,bool full){
	int bs=m.bs,nv=(m.rp[i+1]-m.rp[i])*bs; if(nv>40) return; std::set<int> cols; for(int j=m.rp[i];j<m.rp[i+1];j++) if(full){ for(int k=m.rp[m.ci[j]];k<m.rp[m.ci[j]+1];k++) cols.insert(m.ci[k]); } else cols.insert(m.ci[j]);
	std::vector<int> cl(cols.begin(),cols.end()); int ne=cl.size()*bs; if(ne>160) return; typedef Eigen::Matrix<ld,Eigen::Dynamic,Eigen::Dynamic> EM; EM L(ne,nv),R=EM::Zero(ne,bs),X(nv,bs);
	for(int j=m.rp[i],v=0;j<m.rp[i+1];j++) for(int d=0;d<bs;d++,v++){ for(int q=0;q<ne;q++) L(q,v)=entry(m,m.ci[j]*bs+d,cl[q/bs]*bs+q%bs); for(int a=0;a<bs;a++) X(v,a)=res.at(j,a,d); }
	for(int q=0;q<ne;q++) if(cl[q/bs]==i) R(q,q%bs)=1;
	Eigen::JacobiSVD<EM> svd(L,Eigen::ComputeThinU|Eigen::ComputeThinV); auto sv=svd.singularValues(); ld k=sv(0)/sv(nv-1); if(!(k<1e8L)){ count("sai_rows_too_ill_conditioned"); return; }
	EM Z=svd.matrixV()*(sv.cwiseInverse().asDiagonal()*(svd.matrixU().transpose()*R)); 
	for(int a=0;a<bs;a++){ ld r=(L*Z.col(a)-R.col(a)).norm(),x=Z.col(a).norm(),tol=400*2.3e-16L*(ne+nv)*(k*x+k*k*r/sv(0)),e=(X.col(a)-Z.col(a)).norm(); REQUIRE(e<=tol,"row %d of the inverse (equation %d) is off by %.3Lg (allowed %.3Lg) where the local problem has condition number %.2Lg",i,a,e,tol,k); }
	count("sai_forward_rows"); if(k>1e4L) count("sai_forward_rows_ill_conditioned"); }
template<int bs> static void sai(Case&c){
	Rng&g=c.rng; GenOpt o; o.bs=bs; o.maxb=bs==1?30:9; if(hooks()) o.bigf=2; o.scale=false; o.unsorted=g.chance(0.25); if(c.big){ o.thin=c.idx%2; o.big=o.thin?(bs==1?4000:800):bs==1?400:80; o.bigf=1; o.deep=!o.thin; } SM m=genmat(g,o,&c); bool full=g.chance(0.5); if(g.chance(0.4)) illcond(g,m,full,c); Sched s=gensched(g,8); int chunk=anychunk(g,g.pick<int>({1,2,3,10})); c.note(fmt("%s chunk=%d ",full?"sai":"isai",chunk)+sdesc(s)); apply_sched(s); ro_mat(m);
	if(shim_race_mode) shim_race_mode(1);
	int nb=m.nb; SM res; uint64_t once=0; Rng g2(g.next());
	leakcheck("sparse approximate inverse",[&]{
		LeftSAIPattern<int> sp= full? left_SAI_pattern<double,int>(wrap(m)) : left_incomplete_SAI_pattern<double,int>(wrap(m)); checkpat(m,sp,full);
		CStore cm=wrap(m); SM a=m; for(auto&x:a.v) x=NAN; { Store st(a.rp.p,a.ci.p,a.v.p,a.di.p,a.re.p,nb,a.nnzb(),a.nnzb(),bs); compute_SAI<double,int,bs,ColMajor>(cm,sp,chunk,full,st); }
		if(once++==0){ res=a; // the pattern serves again after the values have changed
			SM m2=m; for(auto&x:m2.v) x=1.25*x+(g2.chance(0.3)?g2.sym()*0.01*std::fabs(x):0); SM b=m2,d=m2; for(auto&x:b.v) x=NAN; for(auto&x:d.v) x=NAN; { Store st(b.rp.p,b.ci.p,b.v.p,b.di.p,b.re.p,nb,b.nnzb(),b.nnzb(),bs); compute_SAI<double,int,bs,ColMajor>(wrap(m2),sp,chunk,full,st); }
			LeftSAIPattern<int> sp2= full? left_SAI_pattern<double,int>(wrap(m2)) : left_incomplete_SAI_pattern<double,int>(wrap(m2)); { Store st(d.rp.p,d.ci.p,d.v.p,d.di.p,d.re.p,nb,d.nnzb(),d.nnzb(),bs); compute_SAI<double,int,bs,ColMajor>(wrap(m2),sp2,1,full,st); }
			bool changed=false; for(int i=0;i<nb;i++){ size_t q0=(size_t)m.rp[i]*bs*bs,q1=(size_t)m.rp[i+1]*bs*bs; double mx=0; for(size_t q=q0;q<q1;q++) mx=std::max(mx,std::fabs(d.v[q])); for(size_t q=q0;q<q1;q++){ REQUIRE(std::fabs(b.v[q]-d.v[q])<=1e-3*mx||!(std::isfinite(mx)),"second computation with the same pattern and other values: entry %zu is %.17g, with a fresh pattern %.17g",q,b.v[q],d.v[q]); changed=changed||b.v[q]!=a.v[q]; } } if(changed) count("sai_recomputations"); } });
	for(int i=0;i<=nb;i++) REQUIRE(res.rp[i]==m.rp[i],"pattern of the inverse changed"); for(int j=0;j<m.nnzb();j++) REQUIRE(res.ci[j]==m.ci[j],"pattern of the inverse changed");
	for(int i=0;i<nb;i++){
		// residual of block row i of M A - I, and magnitudes
		std::vector<std::map<int,ld>> Rr(bs); ld am=0,xm=0; for(int a=0;a<bs;a++) Rr[a][i*bs+a]-=1;
		for(int j=m.rp[i];j<m.rp[i+1];j++) for(int a=0;a<bs;a++) for(int d=0;d<bs;d++){ ld x=res.at(j,a,d); REQUIRE(std::isfinite((double)x),"entry of the inverse not computed in row %d",i); xm=std::max(xm,fabsl(x)); int r=m.ci[j]*bs+d; for(int k=m.rp[r/bs];k<m.rp[r/bs+1];k++) for(int e=0;e<bs;e++){ ld v=m.at(k,r%bs,e); if(v!=0){ Rr[a][m.ci[k]*bs+e]+=x*v; am=std::max(am,fabsl(v)); } } }
		ld mag=(1+am*xm)*(m.rp[i+1]-m.rp[i])*bs;
		if(!full){ for(int j=m.rp[i];j<m.rp[i+1];j++) for(int a=0;a<bs;a++) for(int d=0;d<bs;d++) REQUIRE(fabsl(Rr[a][m.ci[j]*bs+d])<=1e-10L*mag,"incomplete inverse: (M A - I) is %.3Lg at pattern position of block row %d, column %d",Rr[a][m.ci[j]*bs+d],i,m.ci[j]); count("isai_rows"); }
		else { for(int j=m.rp[i];j<m.rp[i+1];j++) for(int a=0;a<bs;a++) for(int d=0;d<bs;d++){ ld gr=0; int r=m.ci[j]*bs+d; for(int k=m.rp[r/bs];k<m.rp[r/bs+1];k++) for(int e=0;e<bs;e++){ auto f=Rr[a].find(m.ci[k]*bs+e); if(f!=Rr[a].end()) gr+=f->second*(ld)m.at(k,r%bs,e); } REQUIRE(fabsl(gr)<=1e-9L*mag*am*std::min(m.nb,100),"row %d of the inverse is not the least-squares solution: gradient %.3Lg with respect to block %d",i,gr,m.ci[j]); } count("sai_rows"); }
	}
	for(int t=0;t<8;t++) forward(m,res,g.below(nb),full);
	note_trace(c);
}
static void fam_sai(Case&c){ if(c.rng.chance(0.6)) sai<1>(c); else sai<4>(c); }
int main(int argc,char**argv){ return run(argc,argv,{{"sai",fam_sai,600,6000},{"saiL",large(fam_sai),24,240}}); }
