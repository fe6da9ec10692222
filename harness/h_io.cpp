// P05 Matrix Market input, P06 coordinate to sparse-row conversion, P07 block columns and column adjacency
#include "lib.hpp"
#include "coomatrix.hpp"
#include "scmatrixdefs.hpp"
#include "adjacency.hpp"
#include "mtxgen.hpp"
#include <sys/wait.h>
using namespace hx;
static void bysorted(std::vector<E3>&e){ std::sort(e.begin(),e.end(),[](const E3&a,const E3&b){return a.i!=b.i?a.i<b.i:a.j<b.j;}); }
static void cmpcoo(const COOMatrix<double,int>&m,const Coo&c){
	std::vector<E3> e=c.e; bysorted(e); REQUIRE(m.numrows()==c.nr&&m.numcols()==c.nc&&m.numnonzeros()==(int)e.size(),"dimensions %d x %d, %d entries; file has %d x %d, %zu",m.numrows(),m.numcols(),m.numnonzeros(),c.nr,c.nc,e.size());
	auto&g=m.getEntries(); REQUIRE(g.size()==e.size(),"%zu entries",g.size());
	for(size_t k=0;k<e.size();k++) REQUIRE(g[k].rowind==e[k].i&&g[k].colind==e[k].j&&g[k].value==e[k].v,"entry %zu is (%d,%d,%.17g), file has (%d,%d,%.17g)",k,g[k].rowind,g[k].colind,g[k].value,e[k].i,e[k].j,e[k].v);
	auto&r=m.getRowPtrs(); REQUIRE((int)r.size()==c.nr+1,"%zu row pointers",r.size()); std::vector<int> rp(c.nr+1,0); for(auto&x:e) rp[x.i+1]++; for(int i=0;i<c.nr;i++) rp[i+1]+=rp[i]; for(int i=0;i<=c.nr;i++) REQUIRE(r[i]==rp[i],"row pointer %d is %d, expected %d",i,r[i],rp[i]); count("entries_read",e.size()); }

static void fam_mtx(Case&c){ // P05
	Rng&g=c.rng; bool big=g.chance(0.05)||c.big,integer=g.chance(0.15); int mx=c.big?2500:big?120:25; int nr=1+g.below(mx),nc=g.chance(0.6)?nr:1+g.below(mx); double d=g.pick<double>({0.05,0.2,0.5,1.0}); if(c.big) d=g.pick<double>({0.5,2,8})/nc; if(c.big&&c.idx%8==5){ nr=HUGE_MIN+g.below(20000); nc=g.chance(0.7)?nr:HUGE_MIN+g.below(50000); d=g.pick<double>({0.2,1})/nc; } Coo co; { Hubs hb(g,c.big,nr,nc); co=gencoo(g,nr,nc,d,integer); } std::string t=mtx(g,co,integer); c.note(fmt("coordinate %dx%d nnz=%zu%s",nr,nc,co.e.size(),integer?" integer":"")); c.sig=hstr(t); std::string f=put(t);
	leakcheck("reading",[&]{ COOMatrix<double,int> m; m.readMatrixMarket(f); cmpcoo(m,co); });
	if(g.chance(0.2)){ Coo c2=gencoo(g,1+g.below(9),1+g.below(9),0.3,false); std::string f2=put(mtx(g,c2,false)); COOMatrix<double,int> m; m.readMatrixMarket(f); m.readMatrixMarket(f2); cmpcoo(m,c2); m.readMatrixMarket(f); cmpcoo(m,co); count("rereads"); } }
static void fam_dense(Case&c){ // P05
	Rng&g=c.rng; bool integer=g.chance(0.1); int nr=1+g.below(c.big?(c.idx%8==5?90000:9000):40),nc=g.chance(0.6)?1:1+g.below(5); std::vector<double> v(nr*nc); for(auto&x:v) x=rv(g,integer); std::string nl=g.chance(0.15)?"\r\n":"\n";
	std::string t=std::string("%%MatrixMarket")+pad(g)+"matrix"+pad(g)+"array"+pad(g)+(integer?"integer":"real")+pad(g)+"general"+nl; for(int k=g.below(4);k>0;k--) t+=comment(g)+nl; t+=fmt("%d",nr)+pad(g)+fmt("%d",nc)+nl; for(size_t k=0;k<v.size();k++) t+=(g.chance(0.1)?" ":"")+num(g,v[k],integer)+(g.chance(0.1)?pad(g):nl);
	c.note(fmt("dense %dx%d",nr,nc)); c.sig=hstr(t); std::string f=put(t);
	leakcheck("reading",[&]{ auto r=readDenseMatrixMarket<double>(f); REQUIRE(r.size()==v.size(),"%zu values, file has %zu",r.size(),v.size()); for(size_t k=0;k<v.size();k++) REQUIRE(r[k]==v[k],"value %zu is %.17g, file has %.17g",k,r[k],v[k]); count("values_read",v.size()); });
	bool fl=true; for(double x:v) fl=fl&&(x==0||(std::fabs(x)<1e30&&std::fabs(x)>1e-30)); if(fl){ auto r=readDenseMatrixMarket<float>(f); REQUIRE(r.size()==v.size(),"%zu float values",r.size()); for(size_t k=0;k<v.size();k++) REQUIRE(std::fabs((double)r[k]-v[k])<=2e-7*std::fabs(v[k]),"float value %zu is %g, file has %g",k,(double)r[k],v[k]); } }
static void fam_refuse(Case&c){ // P05: must end with an exception or a deliberate abort, never with a matrix
	Rng&g=c.rng; bool dense=g.chance(0.35); int n=2+g.below(6); Coo co=gencoo(g,n,n,0.4,false); std::vector<double> v(n); for(auto&x:v) x=g.sym();
	std::string h[5]={"%%MatrixMarket","matrix",dense?"array":"coordinate","real","general"}; int k=g.below(10); int nnz=(int)co.e.size(),miss=0; std::string bad,size,body; bool cplx=false;
	switch(k){
	case 0: h[2]=dense?"coordinate":"array"; break; case 1: h[3]="complex"; cplx=true; break; case 2: h[3]=dense?"quaternion":"pattern"; break; case 3: h[4]=g.pick<std::string>({"symmetric","skew-symmetric","hermitian","skewsymmetric"}); break; case 4: h[0]=g.pick<std::string>({"%MatrixMarket","MatrixMarket","%%MatrixMark","%%Matrix"}); break; case 5: h[2]="sparse"; break; case 6: h[4]="triangular"; break; case 7: bad="nofile"; break; case 8: h[g.below(5)]=""; break; case 9: miss=1+g.below(dense?n-1:nnz-1); break; }
	if(k==0) { // file really has the other kind
		if(!dense){ size=fmt("%d %d\n",n,n); for(int q=0;q<n*n;q++) body+=fmt("%g\n",g.sym()); } else { size=fmt("%d %d %d\n",n,n,nnz); for(auto&e:co.e) body+=fmt("%d %d %.17g\n",e.i+1,e.j+1,e.v); } }
	else if(dense){ size=fmt("%d 1\n",n); for(int q=0;q<n-miss;q++) body+=fmt(cplx?"%.17g 0.5\n":"%.17g\n",v[q]); }
	else { size=fmt("%d %d %d\n",n,n,nnz); for(int q=0;q<nnz-miss;q++) body+= k==2?fmt("%d %d\n",co.e[q].i+1,co.e[q].j+1):fmt(cplx?"%d %d %.17g 0.5\n":"%d %d %.17g\n",co.e[q].i+1,co.e[q].j+1,co.e[q].v); }
	if(k==9&&!dense&&g.chance(0.75)){ body=""; int w=g.below(nnz); for(int q=0;q<nnz;q++){ int i=co.e[q].i+1,j=co.e[q].j+1; if(q==w) (g.chance(0.5)?i:j)=g.pick<int>({0,-3,n+1,n+1000}); body+=fmt("%d %d %.17g\n",i,j,co.e[q].v); } bad="range"; }
	std::string t; for(int q=0;q<5;q++) if(!h[q].empty()) t+=(t.empty()?"":" ")+h[q]; t+="\n"+size+body; std::string f= bad=="nofile"? scratch()+"/does-not-exist.mtx" : put(t); c.note(fmt("refuse kind=%d dense=%d",k,dense)); c.sig=hstr(t);
	fflush(stdout); pid_t p=fork(); if(p==0){ for(int q=0;q<3;q++) if(q!=2) close(q); int dn=open("/dev/null",O_WRONLY); dup2(dn,1); int rc=3; try{ if(dense) readDenseMatrixMarket<double>(f); else { COOMatrix<double,int> m; m.readMatrixMarket(f); } } catch(...){ rc=4; } _exit(rc); }
	int st; waitpid(p,&st,0); bool refused=(WIFEXITED(st)&&WEXITSTATUS(st)==4)||(WIFSIGNALED(st)&&WTERMSIG(st)==SIGABRT);
	REQUIRE(refused,"unsupported file (%s%s) was not refused: status %x; header: %s %s %s %s %s",bad.empty()?"header or missing entries":bad.c_str(),miss?" truncated":"",st,h[0].c_str(),h[1].c_str(),h[2].c_str(),h[3].c_str(),h[4].c_str()); count("refusals"); }

// ---------------------------------------------------------------- P06
template<class S> static void cmpbsr(const S&s,const Coo&c,int bs,bool rm,const char*w){
	int nb=c.nr/bs; std::map<std::pair<int,int>,std::vector<double>> B; for(auto&e:c.e){ auto&b=B[{e.i/bs,e.j/bs}]; if(b.empty()) b.assign(bs*bs,0.0); int r=e.i%bs,q=e.j%bs; b[rm?r*bs+q:q*bs+r]=e.v; }
	REQUIRE(s.nbrows==nb&&s.nnzb==(int)B.size()&&s.nbstored==(int)B.size(),"%s: %d block rows with %d/%d blocks, expected %d with %zu",w,s.nbrows,s.nnzb,s.nbstored,nb,B.size());
	REQUIRE(s.browptr.size()==nb+1&&s.bcolind.size()==(int)B.size()&&s.vals.size()==(int)B.size()*bs*bs&&s.diagind.size()==nb&&s.browendptr.size()==nb,"%s: array lengths",w);
	REQUIRE(s.browptr[0]==0&&s.browptr[nb]==(int)B.size(),"%s: row extents [%d,%d]",w,s.browptr[0],s.browptr[nb]);
	int k=0; auto it=B.begin();
	for(int i=0;i<nb;i++){ REQUIRE(s.browptr[i]==k,"%s: row pointer %d is %d, expected %d",w,i,s.browptr[i],k); REQUIRE(s.browendptr[i]==s.browptr[i+1],"%s: row end %d",w,i); bool dg=false;
		for(;it!=B.end()&&it->first.first==i;++it,++k){ REQUIRE(s.bcolind[k]==it->first.second,"%s: block %d of row %d has column %d, expected %d",w,k,i,s.bcolind[k],it->first.second); for(int q=0;q<bs*bs;q++) REQUIRE(s.vals[k*bs*bs+q]==it->second[q],"%s: block (%d,%d) element %d is %.17g, expected %.17g",w,i,it->first.second,q,s.vals[k*bs*bs+q],it->second[q]); if(it->first.second==i){ dg=true; REQUIRE(s.diagind[i]==k,"%s: diagonal position of row %d is %d, expected %d",w,i,s.diagind[i],k); } }
		if(!dg&&bs>1) REQUIRE(s.diagind[i]==-1,"%s: row %d has no diagonal block but position %d",w,i,s.diagind[i]); }
	count("blocks_compared",B.size()); }
static void fam_coo(Case&c){
	Rng&g=c.rng; static const int bss[]={1,3,4,7}; int bs=bss[g.below(4)]; int nb=1+g.below(bs==1?30:bs<5?10:6); if(g.chance(0.05)) nb*=4; if(c.big) nb=g.range(40,2400/bs); bool huge=c.big&&c.idx%12==7; if(huge) nb=(HUGE_MIN+g.below(9000))/bs+1; int n=nb*bs; double d=g.pick<double>({0.02,0.08,0.3,0.9}); if(c.big) d=g.pick<double>({0.5,2,6})/n; Coo co; co.nr=co.nc=n;
	bool nodiag=bs>1&&g.chance(0.2); Hubs hb(g,c.big,n,n);
	for(int i=0;i<n;i++){ size_t b=co.e.size(); for(int j:rowcols(g,n,i,d,bs==1?1.0:0.7)) if(!(nodiag&&i/bs==j/bs&&(i/bs)%3==0)) co.e.push_back({i,j,g.chance(0.1)?0.0:rv(g,false)}); if(co.e.size()==b) co.e.push_back({i,(nodiag&&(i/bs)%3==0&&nb>1)?((i/bs+1)%nb)*bs:i,1.5}); }
	bool rm=g.chance(0.5); c.note(fmt("bs=%d%s nb=%d nnz=%zu",bs,rm?"R":"C",nb,co.e.size())); std::string t=mtx(g,co,false); c.sig=hstr(t); std::string f=put(t); Sched s=gensched(g,6); apply_sched(s);
	leakcheck("conversion",[&]{ COOMatrix<double,int> m; m.readMatrixMarket(f); const std::string so=rm?"rowmajor":"colmajor";
		for(int rep=0;rep<2;rep++){ SRMatrixStorage<double,int> st = bs==1?getSRMatrixFromCOO<double,int,1>(m,rep?"":so):bs==3?getSRMatrixFromCOO<double,int,3>(m,so):bs==4?getSRMatrixFromCOO<double,int,4>(m,so):getSRMatrixFromCOO<double,int,7>(m,so); cmpbsr(st,co,bs,rm,"conversion"); }
		cmpcoo(m,co);
		if(bs==1){ auto st=m.convertToCSR(); cmpbsr(st,co,1,true,"convertToCSR"); BSRMatrix<double,int,1> A=constructBSRMatrixFromMatrixMarketFile<double,int,1>(f); cmpbsr(A.getRawSRMatrix(),co,1,true,"matrix from file"); }
		if(bs==7){ BSRMatrix<double,int,7> A=constructBSRMatrixFromMatrixMarketFile<double,int,7>(f); cmpbsr(A.getRawSRMatrix(),co,7,true,"matrix from file"); }
		if(bs>1){ bool th=false; try{ if(bs==3) getSRMatrixFromCOO<double,int,3>(m,"diagonal"); else if(bs==4) getSRMatrixFromCOO<double,int,4>(m,""); else getSRMatrixFromCOO<double,int,7>(m,"Rowmajor"); } catch(std::runtime_error&){ th=true; } REQUIRE(th,"unknown block storage order accepted"); }
	}); }

// ---------------------------------------------------------------- P07
static void tobsc(const SM&m,CRawBSCMatrix<double,int>*c){ CRawBSRMatrix<double,int> r=craw(m); switch(m.bs){ case 1: convert_BSR_to_BSC<double,int,1>(&r,c); break; case 3: convert_BSR_to_BSC<double,int,3>(&r,c); break; case 4: convert_BSR_to_BSC<double,int,4>(&r,c); break; case 5: convert_BSR_to_BSC<double,int,5>(&r,c); break; default: convert_BSR_to_BSC<double,int,7>(&r,c); } }
// row and position of the entries of each column, by increasing row
static std::vector<std::vector<std::pair<int,int>>> columns(const SM&m){ std::vector<std::vector<std::pair<int,int>>> c(m.nb); for(int i=0;i<m.nb;i++) for(int j=m.rp[i];j<m.rp[i+1];j++) c[m.ci[j]].push_back({i,j}); return c; }
static void fam_bsc(Case&c){
	Rng&g=c.rng; static const int bss[]={1,1,3,4,5,7}; GenOpt o; o.bs=bss[g.below(6)]; o.maxb=o.bs==1?30:9; o.unsorted=g.chance(0.3); if(c.big){ o.hubs=true; o.big=o.bs==1?6000:1500; o.deep=true; } SM m=genmat(g,o,&c);
	bool nod=g.chance(0.3); if(nod){ // remove some diagonals
		std::vector<int> ci; std::vector<double> v; IBuf rp(m.nb+1); rp[0]=0; int b2=m.bs*m.bs; for(int i=0;i<m.nb;i++){ m.di[i]=-1; bool rem=g.chance(0.4); for(int j=m.rp[i];j<m.rp[i+1];j++){ if(m.ci[j]==i){ if(rem) continue; m.di[i]=(int)ci.size(); } ci.push_back(m.ci[j]); v.insert(v.end(),m.v.p+(size_t)j*b2,m.v.p+(size_t)(j+1)*b2); } rp[i+1]=(int)ci.size(); } if(ci.empty()){ c.trivial=true; return; } m.rp=rp; m.ci=IBuf(ci); m.v=DBuf(v); m.ends(); c.note("nodiag"); }
	Sched s=gensched(g,8); apply_sched(s); int b2=m.bs*m.bs; SM keep=m; bool one=m.bs==1&&g.chance(0.4); ro_mat(m); if(shim_race_mode) shim_race_mode(1);
	leakcheck("column conversion",[&]{ CRawBSCMatrix<double,int> k; if(one){ CRawBSRMatrix<double,int> r=craw(m); k=convert_BSR_to_BSC_1based<double,int,1>(&r); } else tobsc(m,&k); int b=one?1:0;
		REQUIRE(k.nbcols==m.nb&&k.bcolptr[0]==b&&k.bcolptr[m.nb]==m.nnzb()+b,"%d columns, pointers %d..%d, expected %d columns %d..%d",k.nbcols,k.bcolptr[0],k.bcolptr[m.nb],m.nb,b,m.nnzb()+b); auto cl=columns(m); 
		for(int j=0;j<m.nb;j++){ int p=k.bcolptr[j]-b; int dg=-1; for(auto&rc:cl[j]){ int i=rc.first; REQUIRE(p<k.bcolptr[j+1]-b,"column %d is too short",j); REQUIRE(k.browind[p]-b==i,"column %d: row %d where %d belongs",j,k.browind[p]-b,i); for(int q=0;q<b2;q++) REQUIRE(k.vals[(size_t)p*b2+q]==m.v[(size_t)rc.second*b2+q],"block (%d,%d) changed by the conversion",i,j); if(i==j) dg=p; p++; } REQUIRE(p==k.bcolptr[j+1]-b,"column %d is too long",j); REQUIRE(k.diagind[j]-b==dg,"diagonal position of column %d is %d, expected %d",j,k.diagind[j]-b,dg); }
		REQUIRE(m.v==keep.v&&m.ci==keep.ci&&m.rp==keep.rp,"source changed"); alignedDestroyCRawBSCMatrix(k); count("column_conversions"); });
	// adjacency
	SRMatrixStorage<double,int> st(m.rp.p,m.ci.p,m.v.p,m.di.p,m.re.p,m.nb,m.nnzb(),m.nnzb(),m.bs);
	leakcheck("column adjacency",[&]{ ColumnAdjacency<double,int> a(st); auto&p=a.col_pointers(); auto&r=a.col_nonzero_rows(); auto&l=a.col_nonzero_locations(); REQUIRE((int)p.size()==m.nb+1&&(int)r.size()==m.nnzb()&&(int)l.size()==m.nnzb()&&p[0]==0&&p[m.nb]==m.nnzb(),"adjacency sizes"); auto cl=columns(m);
		for(int j=0;j<m.nb;j++){ std::set<std::pair<int,int>> want(cl[j].begin(),cl[j].end()),got; for(int q=p[j];q<p[j+1];q++) got.insert({r[q],l[q]}); REQUIRE(got==want&&(int)want.size()==p[j+1]-p[j],"adjacency of column %d is wrong",j); } count("adjacencies"); });
	note_trace(c); }
int main(int argc,char**argv){ return run(argc,argv,{{"mtx",fam_mtx,800,8000},{"dense",fam_dense,300,3000},{"refuse",fam_refuse,300,1500},{"coo",fam_coo,800,8000},{"bsc",fam_bsc,1200,12000},{"mtxL",large(fam_mtx),16,160},{"denseL",large(fam_dense),16,160},{"cooL",large(fam_coo),24,240},{"bscL",large(fam_bsc),60,600}}); }
